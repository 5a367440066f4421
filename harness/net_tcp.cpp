// C07-C12 C16 C20: TCP sockets of the library in a simulated world, one packer/unpacker pair and set of macros per program.
#define PBT_MAIN
#include "traits.h"
#include <thread>
#include <mutex>

using namespace net;
using pbt::Src;
using pbt::fail;
using pbt::fmt;
using pbt::hex;

///////////////////////////////////////////////////////////////////// the model of a link
struct End
{
	End() : side(NULL), peer(NULL), qbytes(0), items(0), received(0), dec_pos(0), recv_bytes(0), refusals(0), notified(0), rounds(0), took(false) {}
	Side* side; End* peer;
	deque<string> queue; deque<char> cont; size_t qbytes; //what must be in the send buffer; cont: continues the message of the item before it
	void drop() {qbytes -= queue.front().size(); queue.pop_front(); cont.pop_front();}
	const char* torn = NULL; std::set<string> bodies;
	string wire; size_t items; //what has left it
	vector<size_t> item_ends;
	//receiving
	size_t received, dec_pos, recv_bytes; vector<string> decoded; //of the peer's wire
	vector<size_t> msg_ends;
	int refusals;
	size_t notified; bool took;
	int rounds;
	string streamed;
};

//which oracles decide
enum {O_DELIVERY = 1, O_QUEUE = 2, O_NOTIFY = 4};

struct DW : World
{
	bool separate = false;
	int mask = O_DELIVERY | O_QUEUE | O_NOTIFY;
	bool has(int m) const {return 0 != (mask & m);}
	DW() : h(0), refuse(0), echo(0), shrinks(0), unpack_errors(0), sends(0), refused_sends(0), discards(0), max_recv(0), src(NULL) {}
	std::map<Side*, End*> ends;
	deque<End> store;
	uint64_t h; unsigned refuse, echo; int shrinks; size_t unpack_errors, sends, refused_sends, discards, max_recv; Src* src;
	End* end(Side& s) {std::map<Side*, End*>::iterator i = ends.find(&s); return i == ends.end() ? NULL : i->second;}
	//once the parts of a message were separated, the stream behind them is beyond hope
	const char* key(End* e, const char* k) {return e && e->peer && e->peer->torn ? e->peer->torn : k;}
	End* add(Side& s) {store.push_back(End()); End* e = &store.back(); e->side = &s; ends[&s] = e; return e;}

	//brings the model of a send buffer up to date: items only ever leave it from the front, whole and in order
	void sync(End& e, const char* when)
	{
		size_t now = e.side->pending_send();
		while (e.qbytes > now)
		{
			if (e.queue.empty()) break;
			const string& f = e.queue.front();
			if (f.size() > e.qbytes - now) break;
			e.wire += f; ++e.items; e.item_ends.push_back(e.wire.size()); e.drop();
		}
		PBT_CHECK(e.qbytes == now, "send-queue", "%s: the send buffer of %s %d says it holds %zu bytes, by the model it holds %zu (%zu items) or items were torn", when, e.side->server ? "server socket" : "client socket", e.side->link, now, e.qbytes, e.queue.size());
	}
	void decode(End& e) //what e must have received so far at most
	{
		End& p = *e.peer;
		if (p.side) sync(p, "decode");
		Trait::decode(p.wire, e.dec_pos, e.decoded, e.msg_ends, p.torn != NULL);
	}
	void got(Side& s, const char* d, size_t n)
	{
		End* e = end(s); PBT_CHECK(e, "unknown", "a message on a socket that is not connected");
		decode(*e);
		if (Trait::stream)
		{
			e->streamed.append(d, n);
			PBT_CHECK(e->streamed.size() <= e->peer->wire.size() && 0 == e->peer->wire.compare(0, e->streamed.size(), e->streamed), key(e, "corrupt"), "the bytes received by %s %d after %zu bytes are not those sent", s.server ? "server socket" : "client socket", s.link, e->streamed.size() - n);
			++e->received; e->recv_bytes += n;
			return;
		}
		PBT_CHECK(e->received < e->decoded.size(), key(e, "extra"), "%s %d received message number %zu (%zu bytes %s), but only %zu were sent", s.server ? "server socket" : "client socket", s.link, e->received, n, hex(d, n).c_str(), e->decoded.size());
		const string& w = e->decoded[e->received];
		PBT_CHECK(w.size() == n && 0 == memcmp(w.data(), d, n), key(e, "corrupt"), "%s %d: message number %zu of %zu is %zu bytes %s, sent were %zu bytes %s", s.server ? "server socket" : "client socket", s.link, e->received, e->decoded.size(), n, hex(d, n).c_str(), w.size(), hex(w).c_str());
		if (e->peer->torn && !e->peer->bodies.count(w)) fail(e->peer->torn, "%s %d received a message of %zu bytes %s that was never sent", s.server ? "server socket" : "client socket", s.link, n, hex(d, n).c_str());
		++e->received; e->recv_bytes += n;
	}

	//one send operation on both the socket and the model
	void op(Side& s, int api, const vector<string>& parts, bool overflow, bool prior, size_t send_buf)
	{
		End* ep = end(s); if (!ep) return;
		End& e = *ep;
		sync(e, "before a send");
		string all; size_t n_parts = parts.size(); for (size_t i = 0; i < n_parts; ++i) all += parts[i];
		if (A_MSG2 == api || A_MSG2_CONST == api || A_N_MSG2 == api) all = parts[0] + (n_parts > 1 ? parts[1] : string("x"));
		vector<string> add; bool expect = true;
		bool full = e.qbytes >= send_buf;
		bool can = overflow || !full;
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
		vector<string> gone;
		if (!overflow && full)
		{
			//what the user's calc_shrink_size answers decides
			size_t cut = shrink_answer(e.qbytes);
			if (cut > 0) {can = true; size_t sum = 0; deque<string> q(e.queue); while (!q.empty()) {sum += q.front().size(); gone.push_back(q.front()); q.pop_front(); if (sum >= cut) break;}}
			expected_gone = gone;
		}
		else expected_gone.clear();
		discarding = &e; discarded_now.clear();
#endif
		if (!can) expect = false;
		else Trait::expect(api, parts, all, add, expect);
		bool re = s.send_op(api, parts, overflow, prior);
		++sends;
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
		discarding = NULL;
		if (has(O_QUEUE)) PBT_CHECK(discarded_now == expected_gone, "discard", "shrinking a send buffer of %zu bytes discarded %zu items, expected were the first %zu", e.qbytes, discarded_now.size(), expected_gone.size());
		for (size_t i = 0; i < discarded_now.size() && !e.queue.empty(); ++i) e.drop();
		if (!gone.empty() && !e.queue.empty() && e.cont.front()) {if (!e.torn) e.torn = "torn-by-shrinking";};
		if (!gone.empty()) ++discards;
#endif
		if (!has(O_QUEUE) && re != expect) {if (!re) add.clear(); expect = re; if (re && add.empty()) Trait::expect(api, parts, all, add, expect);}
		PBT_CHECK(re == expect, "result", "send (api %d, %zu bytes in %zu parts, can_overflow %d, prior %d) returned %d with %zu of %zu bytes pending, expected %d", api, all.size(), n_parts, overflow, prior, re, e.qbytes, send_buf, expect);
		if (!expect) {++refused_sends; add.clear();}
		if (separate) {e.bodies.insert(all); for (auto& x : parts) {size_t q = 0; vector<size_t> u; vector<string> v; Trait::decode(x, q, v, u, true); e.bodies.insert(v.begin(), v.end());}}
		if (prior && !add.empty() && !e.queue.empty() && e.cont.front()) {if (!e.torn) e.torn = "torn-by-prior";};
		bool whole = !api_multi(api);
		if (prior) for (size_t i = add.size(); i-- > 0;) {e.queue.push_front(add[i]); e.cont.push_front(i > 0 && !whole); e.qbytes += add[i].size();}
		else for (size_t i = 0; i < add.size(); ++i) {e.queue.push_back(add[i]); e.cont.push_back(i > 0 && !whole); e.qbytes += add[i].size();}
		sync(e, "after a send");
	}
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
	vector<string> discarded_now, expected_gone; End* discarding = NULL; unsigned shrink_mode = 0;
	size_t shrink_answer(size_t now) {switch (shrink_mode) {case 0: return now / 3; case 1: return 1; case 2: return now; default: return 0;}}
	virtual size_t shrink(Side& s, size_t now)
	{
		End* e = end(s); PBT_CHECK(e && now == e->qbytes, "shrink-size", "calc_shrink_size was told %zu bytes are pending, but %zu are", now, e ? e->qbytes : 0);
		return shrink_answer(now);
	}
	virtual void discarded(Side&, const vector<string>& v) {PBT_CHECK(discarding, "discard", "messages were discarded outside a send"); discarded_now.insert(discarded_now.end(), v.begin(), v.end());}
#endif
	unsigned rnd(unsigned n) {return (unsigned) (pbt::splitmix(h) >> 33) % n;}
	size_t sbuf = 0;
	int echo_left = 0;
	virtual bool handle(Side& s, const char* d, size_t n)
	{
		End* e = end(s); PBT_CHECK(e, "unknown", "a message on a socket that is not connected");
#ifdef ST_ASIO_PASSIVE_RECV
		if (0 == n) {s.pull(); return true;} //not a message, but the chance to ask for some
#endif
		if (refuse && e->refusals < 60 && rnd(256) < refuse) {++e->refusals; return false;}
		got(s, d, n);
		s.pull();
		if (echo && echo_left > 0 && rnd(256) < echo) {--echo_left; op(s, A_PTR, vector<string>(1, string(6 == NET_TRAIT ? (int) Trait::FIXED : 1 + rnd(30), (char) ('A' + rnd(26)))), rnd(2), false, sbuf);}
		return true;
	}
	virtual size_t batch(Side& s, size_t n) {End* e = end(s); if (refuse && e && e->refusals < 60 && rnd(256) < refuse) {++e->refusals; return 0;} return 1 + rnd((unsigned) n);}
	virtual size_t sync_batch(Side& s, size_t n)
	{
		//what is handled here must not overtake what is still waiting to be dispatched
		s.pull();
		if (s.pending_recv() > 0 || s.dispatching() || 0 == n) return 0;
		return rnd((unsigned) n + 1);
	}
	virtual void sent(Side& s, const string& m, size_t n)
	{
		End* e = end(s); if (!e || !has(O_NOTIFY)) return;
		sync(*e, "on_msg_send");
		size_t from = 0 == e->notified ? 0 : e->item_ends[e->notified - 1], to = e->notified + n <= e->items ? e->item_ends[e->notified + n - 1] : (size_t) -1;
		PBT_CHECK(to != (size_t) -1 && e->wire.compare(from, to - from, m) == 0, "send-notify", "on_msg_send of item %zu (%zu items, %zu bytes %s) does not match what was sent (%zu items)", e->notified, n, m.size(), hex(m).c_str(), e->items);
		e->notified += n;
	}
	virtual bool takes(Side& s) {End* e = end(s); return e && (e->took = 1 == (s.serial + e->notified) % 3);}
	virtual void all_sent(Side& s, const string& m)
	{
		End* e = end(s); if (!e || !has(O_NOTIFY)) return;
		sync(*e, "on_all_msg_send");
		PBT_CHECK(e->queue.empty(), "all-sent-early", "on_all_msg_send although %zu items are waiting", e->queue.size());
		size_t from = e->items > 1 ? e->item_ends[e->items - 2] : 0;
		PBT_CHECK(e->items > 0 && (e->wire.compare(from, string::npos, m) == 0 || (m.empty() && e->took)), "all-sent-msg", "on_all_msg_send was given %zu bytes %s, the last item sent is %zu bytes", m.size(), hex(m).c_str(), e->wire.size() - from);
		++e->rounds;
	}
	std::function<void(Side&)> on_connected, on_created;
	void pair_up(Side& x) //links are recognized by the client's port
	{
		if (x.server) {unsigned short p = x.port(true); End* e = add(x); srv_ports[p] = e;}
		else {unsigned short p = x.port(false); cli_ports[p] = end(x);}
		for (auto& i : cli_ports) {auto j = srv_ports.find(i.first); if (j != srv_ports.end() && !i.second->peer) {i.second->peer = j->second; j->second->peer = i.second; j->second->side->link = i.second->side->link;}}
	}
	std::map<unsigned short, End*> srv_ports, cli_ports;
	bool closing = false;
	virtual void created(Side& s) {World::created(s); if (on_created) on_created(s);}
	virtual void connected(Side& s) {if (on_connected) on_connected(s);}
	virtual bool unpack_error(Side& s) {fail(key(end(s), "unpack-error"), "%s %d could not unpack a well-formed stream", s.server ? "server socket" : "client socket", s.link);}
};

template<typename F> static bool wait_links(DW& w, size_t n, F f) {return w.ends.size() == 2 * n && f();}

struct Net
{
	Net(int accept_num = 4) : srv(pump), cli(pump), drv(pump), ip(my_ip()), port(next_port()) {srv.accept_num = accept_num; srv.set_server_addr(port, ip);}
	typedef boost::shared_ptr<CSock> CP;
	CP add_client()
	{
		CP c = cli.create_object(); PBT_CHECK(c, "create", "cannot create a client");
		c->set_server_addr(port, ip); Trait::init(*c);
		cli.add_socket(c); return c;
	}
	service_pump pump;
	Srv srv; Cli cli; Driver drv;
	string ip; unsigned short port;
};

static void nodelay(Side& s) {int one = 1; setsockopt(s.fd(), IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);}

static int draw_api(Src& s, bool multi)
{
	static vector<int> all, single;
	if (all.empty())
		for (int a = 0; a < A_COUNT; ++a)
		{
			if (!Trait::api_ok(a)) continue;
			all.push_back(a); if (!api_multi(a) && A_N_PARTS != a && A_N_MSG2 != a && A_N_LIST != a && A_D_LIST != a) single.push_back(a);
		}
	return multi ? s.pick(all) : s.pick(single);
}
static size_t draw_len(Src& s)
{
	const size_t M = Trait::max_body();
	switch (s.weighted({6, 3, 2, 1}))
	{
	case 0: return 1 + s.below(20);
	case 1: return 1 + s.below(M);
	case 2: return M - s.below(4);
	default: return M + 1 + s.below(30);
	}
}
//parts of a message; native and direct interfaces get frames
static vector<string> draw_parts(Src& s, int api, bool may_be_too_big)
{
	vector<string> p; size_t n = 1;
	if (A_PARTS == api || A_LIST == api || A_N_LIST == api || A_N_PARTS == api || A_D_LIST == api || A_MSG2 == api || A_MSG2_CONST == api || A_N_MSG2 == api) n = 1 + s.below(3);
	if (A_MSG2 == api || A_MSG2_CONST == api || A_N_MSG2 == api) n = 2;
	if (api_packs(api))
	{
		string b = Trait::body(s, draw_len(s));
		if (!may_be_too_big && b.size() > Trait::max_body()) b.resize(Trait::max_body());
		if (b.size() < n) b.resize(n, 'p');
		size_t at = 0; for (size_t i = 0; i + 1 < n; ++i) {size_t c = 1 + s.below(b.size() - at - (n - 1 - i)); p.push_back(b.substr(at, c)); at += c;}
		p.push_back(b.substr(at));
	}
	else for (size_t i = 0; i < n; ++i) {size_t l = draw_len(s); if (l > Trait::max_body() / n) l = 1 + l % (Trait::max_body() / n); p.push_back(Trait::frame(Trait::body(s, l)));}
	return p;
}

///////////////////////////////////////////////////////////////////// C07
enum {SEPARATE = 1}; //parts of messages, prior sends and shrinking together
static void delivery_case(Src& s, int mask, int mode = 0)
{
	uint64_t plan = s.coin() ? s.seed64() : 0;
	DW w; W = &w; w.src = &s; w.mask = mask;
	{
	Sim sim(plan);
	size_t links = 1 + s.weighted({6, 2, 1});
	size_t sb = s.pick<size_t>({1, 40, 500, 3000, 1048576}), rb = s.pick<size_t>({1048576, 1, 200, 2000});
	unsigned resume = s.pick<unsigned>({50, 0, 1, 300}), handling = s.pick<unsigned>({50, 0, 1, 200});
	w.h = s.seed64(); w.refuse = s.pick<unsigned>({0, 20, 120}); w.echo = s.pick<unsigned>({0, 0, 60}); w.sbuf = sb; w.echo_left = 20;
	bool priors = s.coin(1, 3), multi = !priors;
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
	multi = false; w.shrink_mode = (unsigned) s.below(4);
#endif
	bool can_pop_first = !multi;
	if (mode & SEPARATE) {multi = priors = w.separate = true; can_pop_first = false;}
	Net net; Driver& d = net.drv;
	vector<Net::CP> cs;
	struct L {static void setup(Side& x, size_t sb, size_t rb, unsigned re, unsigned ha) {x.set_bufs(sb, rb); x.set_intervals(re, ha);}};
	w.on_connected = [&](Side& x) {
		nodelay(x);
		w.pair_up(x);
	};
	w.on_created = [&](Side& x) {L::setup(x, sb, rb, resume, handling);};
	for (size_t i = 0; i < links; ++i) {cs.push_back(net.add_client()); cs.back()->link = (int) i; w.add(*cs.back()); L::setup(*cs.back(), sb, rb, resume, handling);}
	size_t n_ops = s.range(1, s.coin(1, 4) ? 60 : 16); int64_t t = 0;
	s.note("plan %lx, %zu links, send buffer %zu, recv buffer %zu, intervals %u %u, refuse %u, echo %u, prior %d", (unsigned long) plan, links, sb, rb, resume, handling, w.refuse, w.echo, priors);
	size_t bodies = 0;
	for (size_t i = 0; i < n_ops; ++i)
	{
		int k = (int) s.below(links); bool server = s.coin();
		t += s.pick<int>({0, 0, 0, 1, 20, 100});
		int kind = (int) s.weighted({14, 1, 1});
		if (1 == kind)
		{
			s.note("  %ld: heartbeat by %s %d", (long) t, server ? "server" : "client", k);
			d.at(t, [&, k, server]() {
				End* e = w.end(*cs[k]); if (server) e = e->peer;
				if (!e || !e->side || !e->side->up) return;
				w.sync(*e, "before a heartbeat"); string hb = Trait::heartbeat();
				e->side->heart(); if (!hb.empty()) {e->queue.push_back(hb); e->cont.push_back(0); e->qbytes += hb.size();}
				w.sync(*e, "after a heartbeat");
			});
			continue;
		}
		if (2 == kind)
		{
			bool all = s.coin();
			if (!can_pop_first) all = true;
			s.note("  %ld: pop %s pending messages of %s %d", (long) t, all ? "all" : "the first", server ? "server" : "client", k);
			d.at(t, [&, k, server, all]() {
				End* e = w.end(*cs[k]); if (server) e = e->peer;
				if (!e || !e->side) return;
				w.sync(*e, "before a pop");
				if (all && multi && !e->cont.empty() && e->cont.front()) return; //the user can see that it holds the rest of a message
				if (all)
				{
					vector<string> items; e->side->pop_all(&items); vector<string> want(e->queue.begin(), e->queue.end());
					PBT_CHECK(items == want, "pop-all", "pop_all_pending_send_msg returned %zu items, the model holds %zu", items.size(), want.size());
					e->queue.clear(); e->cont.clear(); e->qbytes = 0;
				}
				else
				{
					string m = e->side->pop_first(), want = e->queue.empty() ? string() : e->queue.front();
					PBT_CHECK(m == want, "pop-first", "pop_first_pending_send_msg returned %zu bytes, the model's first item has %zu", m.size(), want.size());
					if (!e->queue.empty()) e->drop();
				}
				w.sync(*e, "after a pop");
			});
			continue;
		}
		int api = draw_api(s, multi); bool prior = priors && s.coin(1, 3), over = s.coin(1, 3);
		vector<string> parts = draw_parts(s, api, api != A_SAFE_MSG && api != A_SAFE_PTR);
		size_t bytes = 0; for (auto& p : parts) bytes += p.size();
		bodies += bytes;
		unsigned reps = s.coin(1, 10) ? (unsigned) s.range(2, 40) : 1;
		s.note("  %ld: %s %d sends %zu bytes in %zu parts x %u, api %d%s%s", (long) t, server ? "server" : "client", k, bytes, parts.size(), reps, api, over ? " overflow" : "", prior ? " prior" : "");
		d.at(t, [&, k, server, api, parts, over, prior, reps, sb]() {
			End* e = w.end(*cs[k]); if (server) e = e->peer;
			if (!e || !e->side) return;
			for (unsigned r = 0; r < reps; ++r)
			{
				if ((A_SAFE_PTR == api || A_SAFE_MSG == api || A_SAFE_N_PTR == api) && !over && (!e->side->up || e->side->pending_send() >= sb)) return;
				w.op(*e->side, api, parts, over, prior, sb);
			}
		});
		if (reps > 1) s.cls("burst");
		if (prior) s.cls("prior");
		if (server) s.cls("server sends"); else s.cls(t < 50 ? "client sends before the connection exists" : "client sends");
	}
	d.done = [&]() {
		if (w.srv_ports.size() < links) return false;
		for (auto& i : w.ends)
		{
			End& e = *i.second; if (!e.peer) return false;
			w.sync(e, "waiting"); w.decode(e);
			if (!e.queue.empty() || e.side->sending()) return false;
			if (Trait::stream ? e.streamed.size() < e.peer->wire.size() : e.received < e.decoded.size()) return false;
		}
		return true;
	};
	d.quiet_ms = 400;
	d.finish = [&](bool ok) {
		string st; for (auto& i : w.ends) {End& e = *i.second; st += fmt("\n  %s %d: %s, %zu bytes pending, sending %d, %zu items sent, received %zu of %zu messages, %zu waiting for dispatch, dispatching %d, reception suspended %d", e.side->server ? "server" : "client", e.side->link, e.side->up ? "up" : "down", e.side->pending_send(), e.side->sending(), e.items, e.received, e.decoded.size(), e.side->pending_recv(), e.side->dispatching(), e.side->recv_idle());}
		const char* torn = NULL; for (auto& i : w.ends) if (i.second->torn) torn = i.second->torn;
		PBT_CHECK(ok, torn ? torn : "stuck", "the links did not deliver everything within %ld ms (of simulated time) after the last event:%s", (long) d.limit_ms, st.c_str());
		for (auto& i : w.ends)
		{
			End& e = *i.second; const statistic& t = e.side->stats();
			PBT_CHECK(e.peer && Trait::complete(e.peer->wire, e.dec_pos), w.key(&e, "torn-end"), "the bytes sent by the peer of %s %d do not end with a complete message", e.side->server ? "server" : "client", e.side->link);
			PBT_CHECK(e.side->up, "link-lost", "%s %d lost its connection", e.side->server ? "server" : "client", e.side->link);
			if (!w.has(O_NOTIFY)) continue;
			PBT_CHECK(t.send_msg_sum == e.items && t.send_byte_sum == e.wire.size(), "send-statistic", "%s %d sent %zu items, %zu bytes, its statistic says %lu, %lu", e.side->server ? "server" : "client", e.side->link, e.items, e.wire.size(), (unsigned long) t.send_msg_sum, (unsigned long) t.send_byte_sum);
			PBT_CHECK(t.recv_msg_sum == e.received && t.recv_byte_sum == e.recv_bytes, "recv-statistic", "%s %d received %zu messages, %zu bytes, its statistic says %lu, %lu", e.side->server ? "server" : "client", e.side->link, e.received, e.recv_bytes, (unsigned long) t.recv_msg_sum, (unsigned long) t.recv_byte_sum);
			PBT_CHECK(0 == e.side->pending_recv(), "recv-queue", "%s %d says %zu bytes wait for dispatch, all messages were handled", e.side->server ? "server" : "client", e.side->link, e.side->pending_recv());
#if defined(ST_ASIO_WANT_MSG_SEND_NOTIFY) || defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
			PBT_CHECK(e.notified == e.items, "send-notify", "on_msg_send was called for %zu of %zu items sent", e.notified, e.items);
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
			PBT_CHECK(0 == e.items || e.rounds > 0, "all-sent-missing", "on_all_msg_send was never called");
#endif
		}
		w.closing = true;
	};
	net.pump.run_service(1);
	size_t total = 0, most = 0; for (auto& i : w.ends) {total += i.second->received; most = std::max(most, i.second->received);}
	if (total >= 3 && (w.sends >= 3)) s.nontrivial();
	if (sim::faults.n_short) s.cls("short reads or writes");
	if (sim::faults.n_again) s.cls("spurious EAGAIN");
	if (w.refused_sends) s.cls("send refused: buffer full or message too big");
	if (w.discards) s.cls("messages discarded by shrinking");
	cs.clear();
	}
	W = NULL;
	PBT_CHECK(live == 0, "leak", "%d sockets are still alive", live.load());
}

PBT_TEST(delivery, 10, false, 40) {delivery_case(s, O_DELIVERY);}
PBT_TEST(send_buffer, 10, false, 40) {delivery_case(s, O_QUEUE);}
PBT_TEST(accounting, 10, false, 40) {delivery_case(s, O_NOTIFY);}
PBT_TEST(parts, 2, false, 40) {delivery_case(s, O_DELIVERY, SEPARATE);}

///////////////////////////////////////////////////////////////////// C09: what a receiver holds is bounded, and it goes on once there is room
struct FlowW : DW
{
	bool block = false, watch = false; size_t bound = 0, most = 0, suspended = 0; Side* receiver = NULL; size_t pulls = 1; size_t taken = 0;
	void check(const char* when)
	{
		if (!receiver) return;
		size_t n = receiver->pending_recv(); most = std::max(most, n);
#ifdef ST_ASIO_PASSIVE_RECV
		size_t total = receiver->stats().recv_byte_sum;
		if (watch) PBT_CHECK(total <= pulls * Trait::max_read(), "greedy", "%s: recv_msg was called %zu times, %zu bytes of messages were received", when, pulls, total);
#else
		PBT_CHECK(n <= bound, "unbounded", "%s: %zu bytes are waiting for dispatch, the limit is %zu including one read", when, n, bound);
		if (receiver->recv_idle()) ++suspended;
#endif
	}
	virtual bool handle(Side& s, const char* d, size_t n)
	{
		check("handling a message");
#ifdef ST_ASIO_PASSIVE_RECV
		if (0 == n) return true;
		got(s, d, n); return true;
#else
		if (block && &s == receiver) return false;
		got(s, d, n); return true;
#endif
	}
	virtual size_t batch(Side& s, size_t n) {check("handling a batch"); if (block && &s == receiver) return 0; return 1 + rnd((unsigned) n);}
	virtual size_t sync_batch(Side& s, size_t n) {check("on_msg"); if (block || s.pending_recv() > 0 || s.dispatching() || 0 == n) return 0; return rnd((unsigned) n + 1);}
};

PBT_TEST(flow, 10, false, 60)
{
	uint64_t plan = s.coin(1, 3) ? s.seed64() : 0;
	FlowW w; W = &w; w.mask = O_DELIVERY;
	bool to_server = s.coin();
	{
	Sim sim(plan);
	size_t rb = s.pick<size_t>({1, 100, 500, 3000, 20000}), sb = 1048576;
	unsigned resume = s.pick<unsigned>({50, 1, 300}), handling = s.pick<unsigned>({50, 1, 200}); int blocks = (int) s.range(1, 3);
	w.h = s.seed64(); w.bound = rb - 1 + Trait::max_read();
	Net net; Driver& d = net.drv; bool small_kernel = s.coin();
	w.on_created = [&](Side& x) {x.set_bufs(sb, rb); x.set_intervals(resume, handling);};
	w.on_connected = [&](Side& x) {nodelay(x); if (small_kernel) {int v = 4096; setsockopt(x.fd(), SOL_SOCKET, SO_RCVBUF, &v, sizeof v); setsockopt(x.fd(), SOL_SOCKET, SO_SNDBUF, &v, sizeof v);} w.pair_up(x); if (x.server == to_server) w.receiver = &x;};
	Net::CP c = net.add_client(); c->link = 0; w.add(*c); c->set_bufs(sb, rb); c->set_intervals(resume, handling);
	size_t n = s.range(10, 300), len = s.pick<size_t>({20, 1, 200, 480}), sent = 0;
	bool passive = false;
#ifdef ST_ASIO_PASSIVE_RECV
	passive = true;
#endif
	string body = Trait::body(s, std::min(len, Trait::max_body()));
	s.note("plan %lx, %s sends %zu messages of %zu bytes, recv buffer %zu, intervals %u %u, %d phases of refusal, kernel buffers %s", (unsigned long) plan, to_server ? "client" : "server", n, body.size(), rb, resume, handling, blocks, small_kernel ? "small" : "default");
	int64_t t = 30;
	d.at(t, [&]() {w.block = true; w.watch = true;});
	for (int b = 0; b < blocks; ++b)
	{
		size_t part = n / blocks;
		d.at(t, [&, part]() {
			if (!w.receiver) return; Side* x = w.end(*w.receiver)->peer->side;
			for (size_t i = 0; i < part; ++i) {string m = body; if (m.size() > 4 && 5 != NET_TRAIT) {m[0] = (char) sent; m[1] = (char) (sent >> 8);} ++sent; w.op(*x, A_PTR, vector<string>(1, m), true, false, sb);}
		});
		if (passive)
		{
			int k = (int) s.range(0, 6);
			for (int i = 0; i < k; ++i) {t += s.range(1, 200); d.at(t, [&]() {if (w.receiver) {++w.pulls; w.receiver->pull();}});}
			t += 500;
			continue;
		}
		int64_t len = s.range(20, 2000);
		for (int64_t u = 0; u < len; u += 37) d.at(t + u, [&]() {w.check("watching");});
		t += len; d.at(t, [&]() {w.block = false;});
		if (s.coin()) {t += s.range(0, 120);} //until only a part was taken
		if (b + 1 < blocks) d.at(t, [&]() {w.block = true;});
	}
	d.at(t, [&]() {w.watch = w.block = false;});
	d.done = [&]() {
		w.check("waiting");
		if (passive && w.receiver) {w.receiver->pull();}
		if (w.ends.size() < 2 || !w.receiver) return false;
		for (auto& i : w.ends) {End& e = *i.second; if (!e.peer) return false; w.sync(e, "waiting"); w.decode(e); if (!e.queue.empty() || e.side->sending() || (Trait::stream ? e.streamed.size() < e.peer->wire.size() : e.received < e.decoded.size())) return false;}
		return true;
	};
	d.poll_ms = 20; d.quiet_ms = 400;
	d.finish = [&](bool ok) {
		string st; if (w.receiver && w.end(*w.receiver)->peer) {End& e = *w.end(*w.receiver); st = fmt("received %zu of %zu messages, %zu bytes wait for dispatch, dispatching %d, suspended %d, the sender holds %zu bytes", e.received, e.decoded.size(), e.side->pending_recv(), e.side->dispatching(), e.side->recv_idle(), e.peer->side->pending_send());}
		PBT_CHECK(ok, "stuck", "reception did not go on within %ld ms (of simulated time) after there was room again: %s", (long) d.limit_ms, st.c_str());
		PBT_CHECK(!w.receiver->recv_idle(), "idle", "everything was taken, but the socket says that reception is suspended");
	};
	net.pump.run_service(1);
	if (passive ? w.pulls > 1 : w.suspended > 0) {s.nontrivial(); s.cls("suspended");}
	if (sim::faults.n_short) s.cls("short reads or writes");
	if (sent) s.cls(to_server ? "server receives" : "client receives");
	}
	W = NULL;
	PBT_CHECK(live == 0, "leak", "%d sockets are still alive", live.load());
}

///////////////////////////////////////////////////////////////////// C10: dispatching
struct DispW : DW
{
	Src* src; struct V {int refusals; int n; int64_t last;}; unsigned interval = 50; int64_t slack = 60;
	int current_refusals = -1, left = 0; int64_t last_refusal = -1; string held; size_t early = 0, offers = 0, late = 0, refusals_n = 0; Side* receiver = NULL;
	int depth = 0; vector<int> script; size_t at = 0;
	int next_refusals() {return at < script.size() ? script[at++] : 0;}
	void timing(const char* what)
	{
		if (last_refusal < 0) return;
		int64_t dt = Driver::clock_ms() - last_refusal;
		if (dt + 1 < (int64_t) interval) ++early; //a message that came in just before the refusal brings it forward
		PBT_CHECK(dt <= (int64_t) interval + slack, "late", "%s: refused, it was offered again %ld ms later, the interval is %u ms", what, (long) dt, interval);
		last_refusal = -1;
	}
	virtual bool handle(Side& s, const char* d, size_t n)
	{
#ifdef ST_ASIO_PASSIVE_RECV
		s.pull(); if (0 == n) return true;
#endif
		if (&s != receiver) {got(s, d, n); return true;}
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
		got(s, d, n); return true;
#else
		++offers;
		if (!held.empty()) PBT_CHECK(held.size() == n && 0 == memcmp(held.data(), d, n), "order", "a message of %zu bytes was refused, then one of %zu bytes %s was offered instead of it", held.size(), n, hex(d, n).c_str());
		timing("a message");
		if (held.empty()) left = next_refusals();
		if (left > 0) {--left; ++refusals_n; held.assign(d, n); last_refusal = Driver::clock_ms(); return false;}
		held.clear();
		got(s, d, n);
		return true;
#endif
	}
	virtual size_t batch(Side& s, size_t n)
	{
		if (&s != receiver) return n;
		++offers; timing("a batch");
		if (left <= 0) left = 1 + next_refusals();
		if (--left > 0) {++refusals_n; last_refusal = Driver::clock_ms(); return 0;}
		return 1 + rnd((unsigned) n);
	}
	virtual size_t sync_batch(Side& s, size_t) {s.pull(); return 0;}
};

PBT_TEST(dispatch, 10, false, 60)
{
	uint64_t plan = s.coin(1, 3) ? s.seed64() : 0;
	DispW w; W = &w; w.mask = O_DELIVERY;
	bool to_server = s.coin();
	{
	Sim sim(plan);
	w.h = s.seed64(); w.interval = s.pick<unsigned>({50, 1, 10, 300});
	Net net; Driver& d = net.drv;
	w.on_created = [&](Side& x) {x.set_bufs(1048576, 1048576); x.set_intervals(50, w.interval);};
	w.on_connected = [&](Side& x) {nodelay(x); w.pair_up(x); if (x.server == to_server) w.receiver = &x;};
	Net::CP c = net.add_client(); c->link = 0; w.add(*c); c->set_bufs(1048576, 1048576); c->set_intervals(50, w.interval);
	size_t bursts = s.range(1, 8), total = 0; int64_t t = 60;
	s.note("plan %lx, %s receives, interval %u", (unsigned long) plan, to_server ? "server" : "client", w.interval);
	for (size_t b = 0; b < bursts; ++b)
	{
		size_t n = s.range(1, 6); string body = Trait::body(s, s.range(2, 60));
		s.note("  %ld: %zu messages of %zu bytes", (long) t, n, body.size());
		d.at(t, [&, n, body]() {
			if (!w.receiver) return; Side* x = w.end(*w.receiver)->peer->side;
			for (size_t i = 0; i < n; ++i) {string m = body; m[0] = 5 == NET_TRAIT ? 'a' + i : (char) i; w.op(*x, A_PTR, vector<string>(1, m), true, false, 1048576);}
		});
		total += n; t += s.pick<int>({0, 1, 5, 60, 400});
	}
	size_t refused = 0;
	for (size_t i = 0; i < total; ++i) {int r = (int) s.weighted({5, 2, 1, 1}); if (3 == r) r = (int) s.range(3, 8); w.script.push_back(r); refused += r;}
	{string q; for (int r : w.script) q += fmt(" %d", r); s.note("refusals:%s", q.c_str());}
	d.done = [&]() {
		if (w.ends.size() < 2 || !w.receiver) return false;
		for (auto& i : w.ends) {End& e = *i.second; if (!e.peer) return false; w.sync(e, "waiting"); w.decode(e); if (!e.queue.empty() || e.side->sending() || (Trait::stream ? e.streamed.size() < e.peer->wire.size() : e.received < e.decoded.size())) return false;}
		return true;
	};
	d.quiet_ms = 800;
	d.finish = [&](bool ok) {
		string st; if (w.receiver && w.end(*w.receiver)->peer) {End& e = *w.end(*w.receiver); st = fmt("handled %zu of %zu messages, %zu bytes wait for dispatch, dispatching %d", e.received, e.decoded.size(), e.side->pending_recv(), e.side->dispatching());}
		PBT_CHECK(ok, "stuck", "not every message was offered until it was taken: %s", st.c_str());
		PBT_CHECK(w.early <= total + 1, "early", "%zu refused messages were offered again before the interval of %u ms was over, only %zu messages came in", w.early, w.interval, total);
		PBT_CHECK(!w.receiver->dispatching() && 0 == w.receiver->pending_recv(), "state", "everything was handled, the socket says it is dispatching (%d), %zu bytes are waiting", w.receiver->dispatching(), w.receiver->pending_recv());
	};
	net.pump.run_service(1);
	if (w.refusals_n >= 2) s.nontrivial();
	if (w.refusals_n) s.cls("refused and offered again");
	s.cls(to_server ? "server receives" : "client receives");
	}
	W = NULL;
	PBT_CHECK(live == 0, "leak", "%d sockets are still alive", live.load());
}

///////////////////////////////////////////////////////////////////// C07, C10: the same with real threads
#if NET_TRAIT != 7
struct MtW : DW
{
	std::mutex m; struct Chan {std::map<int, int> next; size_t n; Chan() : n(0) {}};
	std::map<int, Chan> chans; //by receiver serial
	std::atomic<size_t> received; unsigned refuse_n = 0; std::atomic<uint64_t> rng; std::string bad;
	MtW() : received(0), rng(1) {}
	virtual bool handle(Side& s, const char* d, size_t n)
	{
#ifdef ST_ASIO_PASSIVE_RECV
		s.pull(); if (0 == n) return true;
#endif
		uint64_t r = rng.fetch_add(0x9e3779b97f4a7c15ULL); r = pbt::splitmix(r);
#ifdef ST_ASIO_SYNC_DISPATCH
		if (s.serial % 2) {} else //what on_msg leaves is documented to be out of order with what it gets next
#endif
		if (refuse_n && r % 256 < refuse_n) return false;
		int sender = -1, seq = -1, len = -1;
		PBT_CHECK(3 == sscanf(string(d, std::min<size_t>(n, 40)).c_str(), "<%d %d %d>", &sender, &seq, &len) && (size_t) len == n, "corrupt", "received %zu bytes that were never sent: %s ... %s", n, hex(d, n).c_str(), hex(d + (n > 60 ? n - 60 : 0), std::min<size_t>(n, 60), 60).c_str());
		for (size_t i = n; i-- > 0 && d[i] != '>';) PBT_CHECK(d[i] == (char) ('a' + seq % 26), "corrupt", "message %d of sender %d (%zu bytes) is damaged at byte %zu", seq, sender, n, i);
		std::lock_guard<std::mutex> l(m);
		Chan& c = chans[s.serial]; int& want = c.next[sender];
		PBT_CHECK(want == seq, seq < want ? "duplicate" : "lost-or-reordered", "socket %d: sender %d sent message %d next, message %d came", s.serial, sender, want, seq);
		++want; ++c.n; ++received;
		return true;
	}
	virtual size_t batch(Side&, size_t n) {uint64_t r = rng.fetch_add(0x9e3779b97f4a7c15ULL); r = pbt::splitmix(r); if (refuse_n && r % 256 < refuse_n) return 0; return 1 + r % n;}
	virtual size_t sync_batch(Side& s, size_t n) {s.pull(); return s.serial % 2 ? n : 0;} //both ways on one socket would be out of order
	virtual bool unpack_error(Side&) {fail("unpack-error", "a well-formed stream could not be unpacked");}
	virtual void connected(Side& s) {nodelay(s); s.pull(); ++ups;}
	virtual void created(Side& s) {World::created(s); s.set_bufs(sbuf, rbuf); s.set_intervals(3, 2); std::lock_guard<std::mutex> l(m); sides.push_back(&s);}
	virtual void destroyed(Side& s) {std::lock_guard<std::mutex> l(m); sides.erase(std::remove(sides.begin(), sides.end(), &s), sides.end());}
	virtual void recv_error(Side& s, const boost::system::error_code& ec) {if (!over) fail("link-lost", "a connection broke: %s", ec.message().c_str());}
	virtual void sent(Side& s, const string& m, size_t n) {notified += n;}
	virtual void all_sent(Side&, const string&) {}
	std::atomic<int> ups{0}; std::atomic<bool> over{false}; std::atomic<size_t> notified{0}; size_t rbuf = 1048576;
	vector<Side*> sides;
};

PBT_TEST(threads, 10, false, 60)
{
	MtW w; W = &w;
	{
	int links = (int) s.range(1, 3), senders = (int) s.range(1, 3), threads = (int) s.range(2, 4), n = (int) s.range(5, 80);
	w.sbuf = s.pick<size_t>({100000000, 2000, 200}); w.rbuf = s.pick<size_t>({1048576, 3000, 100}); w.refuse_n = s.pick<unsigned>({0, 3, 20}); w.rng = s.seed64();
	sim::jitter = s.pick<unsigned>({0, 3, 10, 50}); sim::points = s.pick<unsigned>({0, 2000, 300, 50}); sim::jitter_seed = s.seed64() | 1; uint64_t plan = s.coin(1, 3) ? s.seed64() : 0; sim::set_faults(plan);
	uint64_t h = s.seed64();
	bool both = s.coin(), lockstep = s.coin(); //lockstep: everybody sends one message and waits until all of them have arrived
	s.note("%d links, %d senders on each end%s, %d messages each%s, %d service threads, send buffer %zu, recv buffer %zu, refusals %u/256, jitter %u, pauses %u, faults %lx", links, senders, both ? "" : " (client only)", n, lockstep ? " in lockstep" : "", threads, w.sbuf, w.rbuf, w.refuse_n, sim::jitter, sim::points, (unsigned long) plan);
	Net net; vector<Net::CP> cs;
	net.drv.done = [] {return false;}; net.drv.limit_ms = 1000000000;
	for (int i = 0; i < links; ++i) cs.push_back(net.add_client());
	net.pump.start_service(threads);
	double end = pbt::real_now() + 20;
	while (w.ups < 2 * links && pbt::real_now() < end) usleep(1000);
	PBT_CHECK(w.ups == 2 * links, "t:connect", "%d of %d connections after 20 s", w.ups.load(), 2 * links);
	vector<Side*> from; {std::lock_guard<std::mutex> l(w.m); for (auto* x : w.sides) if (x->up && (both || !x->server)) from.push_back(x);}
	vector<std::thread> ts; size_t total = 0; std::atomic<int> done(0);
	for (size_t f = 0; f < from.size(); ++f)
		for (int k = 0; k < senders; ++k)
		{
			total += n;
			ts.push_back(std::thread([&, f, k]() {
				Side* x = from[f]; uint64_t r = h + f * 977 + k * 131071;
				static const int apis[] = {A_PTR, A_SAFE_PTR, A_MSG, A_SAFE_MSG, A_MSG2, A_PARTS, A_BUFFER, A_N_PTR, A_D_MSG, A_N_MSG};
				for (int i = 0; i < n && !w.over;)
				{
					size_t room = Trait::max_body() - 2; size_t len = 24 + pbt::splitmix(r) % (pbt::splitmix(r) % 4 ? 20 : room - 24);
					if (6 == NET_TRAIT) len = Trait::FIXED;
					string tag = fmt("<%d %d %zu>", k, i, len); string b = tag + string(len - tag.size(), (char) ('a' + i % 26));
					int api = apis[pbt::splitmix(r) % 10]; vector<string> p(1, b);
					if (A_PARTS == api || A_MSG2 == api) {size_t c = 1 + pbt::splitmix(r) % (b.size() - 1); p[0] = b.substr(0, c); p.push_back(b.substr(c));}
					if (!api_packs(api)) p[0] = Trait::frame(b);
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
					bool over = true; if (A_SAFE_PTR == api || A_SAFE_MSG == api) api = A_PTR;
#else
					bool over = pbt::splitmix(r) % 2;
#endif
					if (x->send_op(api, p, over, false))
					{
						++i;
						if (lockstep) for (int y = 0; !w.over && w.received < from.size() * senders * (size_t) i; ++y) if (y < 50) sched_yield(); else usleep(50);
					}
					else
						sched_yield();
					if (0 == pbt::splitmix(r) % 16) sched_yield();
				}
				++done;
			}));
		}
	end = pbt::real_now() + 25;
	while ((w.received < total || done < (int) ts.size()) && pbt::real_now() < end) usleep(1000);
	w.over = true;
	string st; for (Side* x : w.sides) st += fmt(" [%s: %zu bytes unsent, sending %d, %zu bytes undispatched, dispatching %d, suspended %d]", x->server ? "server" : "client", x->pending_send(), x->sending(), x->pending_recv(), x->dispatching(), x->recv_idle());
	PBT_CHECK(w.received == total && done == (int) ts.size(), "t:stuck", "%zu of %zu messages were received after 25 s, %d of %zu senders are done:%s", w.received.load(), total, done.load(), ts.size(), st.c_str());
	for (auto& t : ts) t.join();
	sim::jitter = sim::points = 0; sim::set_faults(0);
	std::atomic<bool> stopped(false);
	std::thread dog([&]() {
		double end = pbt::real_now() + 25; while (!stopped && pbt::real_now() < end) usleep(2000);
		if (stopped) return;
		std::lock_guard<std::mutex> l(w.m);
		string st; for (Side* x : w.sides) st += fmt(" [%s %d: started %d, connected %d, broken %d, up %d, unsent %zu, sending %d, undispatched %zu, dispatching %d, suspended %d, busy %d]", x->server ? "server" : "client", x->serial, x->is_started(), x->connected(), x->broken(), x->up, x->pending_send(), x->sending(), x->pending_recv(), x->dispatching(), x->recv_idle(), x->busy());
		fail("t:stop", "stop_service did not return within 25 s:%s", st.c_str());
	});
	net.pump.stop_service();
	stopped = true; dog.join();
	PBT_CHECK(w.received == total, "duplicate", "%zu messages were sent, %zu received", total, w.received.load());
	if (total >= 20 && from.size() * senders >= 2) s.nontrivial();
	if (w.refuse_n) s.cls("handler refuses"); if (w.sbuf < 3000) s.cls("full send buffers"); if (plan) s.cls("short transfers"); if (sim::jitter) s.cls("jitter");
	cs.clear();
	}
	W = NULL;
	PBT_CHECK(live == 0, "leak", "%d sockets are still alive", live.load());
}
#endif
