// Sockets, servers and clients of the library whose every callback is reported to a World, and the scripted
// driver that runs a case in (virtual or real) time.
#ifndef NET_H_
#define NET_H_
#include "sim.h"
#include "quiet.h"
#ifndef NET_OWN_DEFAULTS
#include "include/ext/tcp.h"
#endif
#include <deque>
#include <set>
#include <memory>
#include <arpa/inet.h>
#include <netinet/tcp.h>

namespace net {

using namespace st_asio_wrapper;
using std::string;
using std::vector;
using std::deque;

struct World;
extern World* W; //the case being run
extern std::atomic<int> live; //Tap objects alive

enum CallBack {CB_CONNECT, CB_MSG, CB_HANDLE, CB_SENT, CB_ALL_SENT, CB_SEND_ERR, CB_RECV_ERR, CB_UNPACK_ERR, CB_HEART_ERR, CB_CLOSE, CB_AFTER_CLOSE, CB_TIMER, CB_POST, CB_DISCARD, CB_SHUT_ERR};

struct Side
{
	Side(bool server_) : server(server_), serial(0), link(-1), up(false), in_handler(0), in_sync(0), user(NULL) {++live;}
	virtual ~Side() {--live;}

	bool server;
	int serial; //order of creation
	int link; //given by the test
	bool up; //between on_connect and on_close
	std::atomic<int> in_handler, in_sync;
	void* user;

	virtual boost::uint_fast64_t sid() = 0;
	virtual size_t pending_send() = 0;
	virtual size_t pending_recv() = 0;
	virtual bool can_send() = 0; //is_send_buffer_available
	virtual bool send_op(int api, const vector<string>& parts, bool overflow, bool prior) = 0;
	virtual void heart() = 0;
	virtual void force(bool reconnect) = 0;
	virtual void graceful(bool reconnect) = 0;
	virtual string pop_first() = 0;
	virtual string pop_all(vector<string>* items = NULL) = 0;
	virtual void set_bufs(size_t s, size_t r) = 0;
	virtual void set_intervals(unsigned resume, unsigned handle) = 0;
	virtual const statistic& stats() = 0;
	virtual int fd() = 0;
	virtual void user_timer(int id, unsigned ms, const std::function<bool()>& f) = 0;
	virtual void user_stop_timer(int id) = 0;
	virtual void user_post(const std::function<void()>& f, int how) = 0;
	virtual bool connected() = 0;
	virtual bool broken() = 0;
	virtual bool is_started() = 0;
	virtual bool sending() = 0;
	virtual bool busy() = 0; //is_async_calling
	virtual bool recv_idle() = 0;
	virtual void pull() = 0; //recv_msg of passive reception
	virtual bool dispatching() = 0;
	virtual unsigned short port(bool remote) = 0;
	virtual size_t max_body() = 0;
};

struct World
{
	World() : serial(0) {}
	virtual ~World() {}
	int serial;
	virtual void created(Side& s) {s.serial = __sync_fetch_and_add(&serial, 1);}
	virtual void connected(Side&) {}
	virtual bool handle(Side&, const char*, size_t) {return true;} //false: not now
	virtual size_t batch(Side&, size_t n) {return n;} //batched dispatching: how many of n messages are taken now
	virtual size_t sync_batch(Side&, size_t n) {return n;} //the same for on_msg
	virtual void sent(Side&, const string&, size_t) {}
	virtual bool takes(Side&) {return false;} //on_msg_send takes what it is given
	virtual void all_sent(Side&, const string&) {}
	virtual void send_error(Side&, const boost::system::error_code&, const vector<string>&) {}
	virtual void recv_error(Side&, const boost::system::error_code&) {}
	virtual bool unpack_error(Side&) {return true;} //true: the default reaction
	virtual bool heart_error(Side&) {return true;}
	virtual void closed(Side&) {}
	virtual void after_closed(Side&) {}
	virtual void discarded(Side&, const vector<string>&) {}
	virtual size_t shrink(Side&, size_t now) {return now / 3;}
	virtual int reconnect_delay(Side&, const boost::system::error_code&) {return 500;}
	virtual bool accept(Side&) {return true;}
	virtual void destroyed(Side&) {}
	virtual void idle_msg(Side&) {} //empty message of passive reception
};

template<typename M> string str(const M& m) {return m.empty() ? string() : string(m.data(), m.size());}

//builds a message object out of bytes
template<typename M> struct maker {static M mk(const string& s) {M m; m.assign(s.data(), s.size()); return m;}};
template<typename T> struct maker<unique_buffer<T> > {static void fill(unique_buffer<T>& m, const string& s) {ext::string_buffer* b = new ext::string_buffer; b->assign(s); m.raw_buffer(b);}};
template<typename T> struct maker<shared_buffer<T> > {static void fill(shared_buffer<T>& m, const string& s) {boost::shared_ptr<ext::string_buffer> b = boost::make_shared<ext::string_buffer>(); b->assign(s); m.raw_buffer(b);}};
template<typename M> struct is_ptr_msg {enum {value = 0};};
template<typename T> struct is_ptr_msg<unique_buffer<T> > {enum {value = 1};};
template<typename T> struct is_ptr_msg<shared_buffer<T> > {enum {value = 1};};
template<typename M, bool P> struct filler {static void fill(M& m, const string& s) {m.assign(s.data(), s.size());}};
template<typename M> struct filler<M, true> {static void fill(M& m, const string& s) {maker<M>::fill(m, s);}};
template<typename M> void fill(M& m, const string& s) {filler<M, is_ptr_msg<M>::value>::fill(m, s);}

enum SendApi {
	A_PTR, A_PARTS, A_BUFFER, A_MSG_CONST, A_MSG, A_MSG2_CONST, A_MSG2, A_LIST, //through the packer
	A_SAFE_PTR, A_SAFE_MSG,
	A_N_PTR, A_N_PARTS, A_N_MSG_CONST, A_N_MSG, A_N_MSG2, A_N_LIST, A_SAFE_N_PTR, //native: parts are frames
	A_D_CONST, A_D_MSG, A_D_LIST, //direct
	A_COUNT
};
inline bool api_packs(int a) {return a < A_N_PTR;}
//these put one buffer per part (and one for the header) into the queue
inline bool api_multi(int a) {return A_MSG_CONST == a || A_MSG == a || A_MSG2 == a || A_MSG2_CONST == a || A_LIST == a || A_SAFE_MSG == a;}

//CTOR: the argument of the constructor (i_server, i_matrix, io_context)
template<typename Base, typename CTOR, bool SERVER> class Tap : public Base, public Side
{
public:
	typedef typename Base::in_msg_type IM;
	typedef typename Base::out_msg_type OM;
	Tap(CTOR& a) : Base(a), Side(SERVER) {if (W) W->created(*this);}
	~Tap() {if (W) W->destroyed(*this);}

	virtual boost::uint_fast64_t sid() {return Base::id();}
	virtual size_t pending_send() {return Base::get_pending_send_msg_size();}
	virtual size_t pending_recv() {return Base::get_pending_recv_msg_size();}
	virtual bool can_send() {return Base::is_send_buffer_available();}
	virtual bool connected() {return Base::is_connected();}
	virtual bool broken() {return Base::is_broken();}
	virtual bool is_started() {return Base::started();}
	virtual bool sending() {return Base::is_sending();}
	virtual bool busy() {return Base::is_async_calling();}
	virtual bool recv_idle() {return Base::is_recv_idle();}
	virtual bool dispatching() {return Base::is_dispatching();}
	virtual unsigned short port(bool remote)
	{
		struct sockaddr_in a; socklen_t l = sizeof a; memset(&a, 0, sizeof a);
		int re = remote ? getpeername(fd(), (struct sockaddr*) &a, &l) : getsockname(fd(), (struct sockaddr*) &a, &l);
		return re ? 0 : ntohs(a.sin_port);
	}
	virtual size_t max_body() {return ST_ASIO_MSG_BUFFER_SIZE - ST_ASIO_HEAD_LEN;}
	virtual void heart() {Base::send_heartbeat();}
	virtual void set_bufs(size_t s, size_t r) {Base::send_buf_size(s); Base::recv_buf_size(r);}
	virtual void set_intervals(unsigned resume, unsigned handle) {Base::msg_resuming_interval(resume); Base::msg_handling_interval(handle);}
	virtual const statistic& stats() {return Base::get_statistic();}
	virtual int fd() {return Base::lowest_layer().native_handle();}
	virtual void user_timer(int id, unsigned ms, const std::function<bool()>& f)
		{boost::function<bool(typename Base::tid)> h = [f](typename Base::tid) {return f();}; Base::set_timer((typename Base::tid) (Base::TIMER_END + id), ms, h);}
	virtual void user_stop_timer(int id) {Base::stop_timer((typename Base::tid) (Base::TIMER_END + id));}
	virtual void user_post(const std::function<void()>& f, int how)
	{
		boost::function<void()> h = f;
		switch (how) {case 0: Base::post(h); break; case 1: Base::defer(h); break; case 2: Base::dispatch(h); break; case 3: Base::post_in_io_strand(h); break; default: Base::post_in_dis_strand(h); break;}
	}
	virtual void pull()
	{
#ifdef ST_ASIO_PASSIVE_RECV
		Base::recv_msg();
#endif
	}
	virtual string pop_first() {typename Base::in_msg m; Base::pop_first_pending_send_msg(m); return str(m);}
	virtual string pop_all(vector<string>* items)
	{
		typename Base::in_container_type can; Base::pop_all_pending_send_msg(can); string s;
		for (auto i = can.begin(); i != can.end(); ++i) {s += str(*i); if (items) items->push_back(str(*i));}
		return s;
	}

	virtual bool send_op(int api, const vector<string>& p, bool o, bool prior)
	{
		typedef typename Base::in_msg_ctype CM;
		vector<const char*> ps; vector<size_t> ls; string all;
		for (size_t i = 0; i < p.size(); ++i) {ps.push_back(p[i].data()); ls.push_back(p[i].size()); all += p[i];}
		IM a, b;
		switch (api)
		{
		case A_PTR: return Base::send_msg(all.data(), all.size(), o, prior);
		case A_PARTS: return Base::send_msg(&ps[0], &ls[0], ps.size(), o, prior);
		case A_BUFFER: {struct V {const string* s; const char* data() const {return s->data();} size_t size() const {return s->size();}} v = {&all}; return Base::send_msg(v, o, prior);}
		case A_SAFE_PTR: return Base::safe_send_msg(all.data(), all.size(), o, prior);
		case A_N_PTR: return Base::send_native_msg(all.data(), all.size(), o, prior);
		case A_N_PARTS: return Base::send_native_msg(&ps[0], &ls[0], ps.size(), o, prior);
		case A_SAFE_N_PTR: return Base::safe_send_native_msg(all.data(), all.size(), o, prior);
		case A_MSG: fill(a, all); return Base::send_msg(a, o, prior);
		case A_SAFE_MSG: fill(a, all); return Base::safe_send_msg(a, o, prior);
		case A_MSG2: fill(a, p[0]); fill(b, p.size() > 1 ? p[1] : string("x")); return Base::send_msg(a, b, o, prior);
		case A_LIST: case A_N_LIST: case A_D_LIST:
			{
				list<IM> l; for (size_t i = 0; i < p.size(); ++i) {IM t; fill(t, p[i]); l.emplace_back().swap(t);}
				return A_LIST == api ? Base::send_msg(l, o, prior) : A_N_LIST == api ? Base::send_native_msg(l, o, prior) : Base::direct_send_msg(l, o, prior);
			}
		case A_N_MSG: fill(a, all); return Base::send_native_msg(a, o, prior);
		case A_N_MSG2: fill(a, p[0]); fill(b, p.size() > 1 ? p[1] : string("x")); return Base::send_native_msg(a, b, o, prior);
		case A_D_MSG: fill(a, all); return Base::direct_send_msg(a, o, prior);
		default: break;
		}
		return copy_op(api, p, all, o, prior, std::integral_constant<bool, is_copyable>());
	}
	enum {is_copyable = std::is_copy_constructible<IM>::value && !is_ptr_msg<IM>::value};
	bool copy_op(int api, const vector<string>& p, const string& all, bool o, bool prior, std::true_type)
	{
		typedef typename Base::in_msg_ctype CM;
		IM a, b; string keep;
		bool re = false;
		switch (api)
		{
		case A_MSG_CONST: fill(a, all); keep = all; re = Base::send_msg((CM&) a, o, prior); break;
		case A_MSG2_CONST: fill(a, p[0]); fill(b, p.size() > 1 ? p[1] : string("x")); keep = p[0]; re = Base::send_msg((CM&) a, (CM&) b, o, prior); break;
		case A_N_MSG_CONST: fill(a, all); keep = all; re = Base::send_native_msg((CM&) a, o, prior); break;
		case A_D_CONST: fill(a, all); keep = all; re = Base::direct_send_msg((CM&) a, o, prior); break;
		default: abort();
		}
		PBT_CHECK(str(a) == keep, "const-message-modified", "a message passed by constant reference was changed by the send (api %d)", api);
		return re;
	}
	bool copy_op(int, const vector<string>&, const string&, bool, bool, std::false_type) {abort();}

	virtual void force(bool r) {force_(r, std::integral_constant<bool, SERVER>());}
	virtual void graceful(bool r) {graceful_(r, std::integral_constant<bool, SERVER>());}
private:
	void force_(bool, std::true_type) {Base::force_shutdown();}
	void force_(bool r, std::false_type) {Base::force_shutdown(r);}
	void graceful_(bool, std::true_type) {Base::graceful_shutdown();}
	void graceful_(bool r, std::false_type) {Base::graceful_shutdown(r);}
	template<typename Can> static vector<string> strs(Can& c) {vector<string> v; for (auto i = c.begin(); i != c.end(); ++i) v.push_back(str(*i)); return v;}

protected:
	virtual void on_connect() {up = true; W->connected(*this); Base::on_connect();}
	virtual void on_close() {W->closed(*this); up = false; Base::on_close();}
	virtual void after_close() {W->after_closed(*this); Base::after_close();}
	virtual void on_recv_error(const boost::system::error_code& ec) {W->recv_error(*this, ec); Base::on_recv_error(ec);}
	virtual void on_send_error(const boost::system::error_code& ec, typename Base::in_container_type& c) {W->send_error(*this, ec, strs(c)); Base::on_send_error(ec, c);}
	virtual void on_unpack_error() {if (W->unpack_error(*this)) Base::on_unpack_error();}
	virtual bool on_heartbeat_error() {if (W->heart_error(*this)) return Base::on_heartbeat_error(); return true;}
#ifdef ST_ASIO_SYNC_DISPATCH
	virtual size_t on_msg(list<OM>& can)
	{
		int c = ++in_sync; PBT_CHECK(1 == c, "handler-concurrent", "two messages of one socket are handled at the same time");
		size_t n = 0; for (auto i = can.begin(); i != can.end(); ++i) ++n;
		n = W->sync_batch(*this, n); size_t done = 0;
		while (done < n && !can.empty()) {if (!W->handle(*this, can.front().data(), can.front().size())) break; can.pop_front(); ++done;}
		--in_sync; return done;
	}
#endif
#ifdef ST_ASIO_DISPATCH_BATCH_MSG
	virtual size_t on_msg_handle(typename Base::out_queue_type& q)
	{
		int c = ++in_handler; PBT_CHECK(1 == c, "handler-concurrent", "two messages of one socket are handled at the same time");
		q.lock(); size_t n = q.size(); q.unlock();
		PBT_CHECK(n > 0, "batch-empty", "on_msg_handle was called without any message");
		n = W->batch(*this, n); size_t done = 0;
		typename Base::out_container_type taken; q.move_items_out(taken, n);
		while (done < n && !taken.empty()) {if (!W->handle(*this, str(taken.front()).data(), taken.front().size())) break; taken.pop_front(); ++done;}
		if (!taken.empty()) q.move_items_in_front(taken);
		--in_handler; return done;
	}
#else
	virtual bool on_msg_handle(OM& msg)
	{
		int c = ++in_handler; PBT_CHECK(1 == c, "handler-concurrent", "two messages of one socket are handled at the same time");
		bool re = W->handle(*this, msg.data(), msg.size());
		--in_handler; return re;
	}
#endif
#ifdef ST_ASIO_WANT_MSG_SEND_NOTIFY
	virtual void on_msg_send(IM& msg) {W->sent(*this, str(msg), 1); if (W->takes(*this)) {IM mine; mine.swap(msg);}}
#elif defined(ST_ASIO_WANT_BATCH_MSG_SEND_NOTIFY)
	virtual void on_msg_send(typename Base::in_container_type& c) {string s; size_t n = 0; for (auto i = c.begin(); i != c.end(); ++i) {s += str(*i); ++n;} W->sent(*this, s, n); if (W->takes(*this)) {typename Base::in_container_type mine; mine.swap(c);}}
#endif
#ifdef ST_ASIO_WANT_ALL_MSG_SEND_NOTIFY
	virtual void on_all_msg_send(IM& msg) {W->all_sent(*this, str(msg));}
#endif
#ifdef ST_ASIO_SHRINK_SEND_BUFFER
	virtual size_t calc_shrink_size(size_t now) {return W->shrink(*this, now);}
	virtual void on_msg_discard(typename Base::in_container_type& c) {W->discarded(*this, strs(c));}
#endif
};

template<typename Base, typename CTOR> class ClientTap : public Tap<Base, CTOR, false>
{
public:
	ClientTap(CTOR& a) : Tap<Base, CTOR, false>(a) {}
protected:
	virtual int prepare_reconnect(const boost::system::error_code& ec) {return W->reconnect_delay(*this, ec);}
};

template<typename Socket> class Server : public tcp::server_base<Socket>
{
public:
	Server(service_pump& p) : tcp::server_base<Socket>(p), accept_num(4) {}
	int accept_num;
	using tcp::server_base<Socket>::create_object;
	using tcp::server_base<Socket>::add_socket;
	using tcp::server_base<Socket>::free_object;
protected:
	virtual int async_accept_num() {return accept_num;}
	virtual bool on_accept(typename tcp::server_base<Socket>::object_ctype& s) {return W->accept(*s);}
};

//runs scripted events on the service pump, in virtual or real time
class Driver : public service_pump::i_service
{
public:
	Driver(service_pump& p) : i_service(p), io(p.assign_io_context(false)), t(io), poll_ms(50), quiet_ms(0), limit_ms(60000), over(false), ended(false) {}
	typedef std::function<void()> Fn;
	void at(int64_t ms, const Fn& f) {ev.insert(std::make_pair(ms, f));}
	//when the script is over: asked every poll_ms until it returns true, at the latest limit_ms after the last event
	std::function<bool()> done;
	std::function<void(bool)> finish; //argument: done() came true; then the pump is ended
	int64_t now() const {return clock_ms() - t0;}
	int64_t poll_ms, quiet_ms, limit_ms;
	bool over, ended;
	double real_over;
	static int64_t clock_ms() {struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec * 1000LL + ts.tv_nsec / 1000000;}
protected:
	virtual bool init() {down = false; t0 = clock_ms(); next(); return true;}
	virtual void uninit() {std::lock_guard<std::mutex> l(tm); down = true; t.cancel();}
private:
	void arm(int64_t ms) {std::lock_guard<std::mutex> l(tm); if (down) return; t.expires_after(std::chrono::milliseconds(ms < 0 ? 0 : ms)); t.async_wait([this](const boost::system::error_code& ec) {if (!ec) next();});}
	void next()
	{
		if (ended) return;
		while (!ev.empty() && ev.begin()->first <= now())
		{
			Fn f = ev.begin()->second; ev.erase(ev.begin());
			f();
			if (ended) return;
		}
		if (!ev.empty()) return arm(ev.begin()->first - now());
		if (!over) {over = true; t_over = now(); real_over = pbt::real_now();}
		bool d = done ? done() : true;
		//time-outs are only believed when real time has passed too
		if (d || (now() - t_over > limit_ms && pbt::real_now() - real_over > 3.0))
		{
			if (d && quiet_ms > 0) {int64_t q = quiet_ms; quiet_ms = 0; return arm(q);}
			ended = true;
			if (finish) finish(d);
			get_service_pump().end_service();
			return;
		}
		arm(poll_ms);
	}
	boost::asio::io_context& io;
	boost::asio::steady_timer t;
	int64_t t0, t_over;
	std::mutex tm; bool down = false; //stopped by another thread
	std::multimap<int64_t, Fn> ev;
};

//an address of this process' own
inline string my_ip() {unsigned p = (unsigned) getpid(); return pbt::fmt("127.%u.%u.%u", 1 + (p >> 16) % 200, (p >> 8) & 255, 1 + (p & 255) % 254);}
inline unsigned short next_port() {static unsigned n = (unsigned) getpid() * 31; return (unsigned short) (20000 + n++ % 12000);}

struct Sim //virtual time for one case
{
	Sim(uint64_t plan) {sim::reset(); sim::virt = true; sim::set_faults(plan);}
	~Sim() {sim::virt = false; sim::reset();}
};

//reference decoders
inline bool decode_lp(const string& s, vector<string>& out)
{
	size_t p = 0; const size_t H = ST_ASIO_HEAD_LEN;
	while (p + H <= s.size())
	{
		size_t n = 0; for (size_t i = 0; i < H; ++i) n = n * 256 + (unsigned char) s[p + i];
		if (n < H || p + n > s.size()) return false;
		if (n > H) out.push_back(s.substr(p + H, n - H));
		p += n;
	}
	return p == s.size();
}
inline string encode_lp(const string& b) {size_t n = b.size() + ST_ASIO_HEAD_LEN; string s; for (int i = ST_ASIO_HEAD_LEN - 1; i >= 0; --i) s += (char) (n >> (8 * i)); return s + b;}

} //namespace net

#ifdef PBT_MAIN
namespace net {World* W = NULL; std::atomic<int> live(0);}
#endif
#endif
