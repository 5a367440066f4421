// C01 C02 C03 C04 C05: packers, unpackers and basic_buffer against independent reference models.
#define PBT_MAIN
#include "pbt.h"
#include "quiet.h"
#include <include/ext/packer.h>
#include <include/ext/unpacker.h>

using namespace st_asio_wrapper;
using namespace st_asio_wrapper::ext;
typedef std::string S;

static const size_t HL = ST_ASIO_HEAD_LEN, MAXM = ST_ASIO_MSG_BUFFER_SIZE;
static const size_t HEAD_RANGE = HL == 2 ? 65535 : 4294967295u;
static const size_t MAXFRAME = MAXM < HEAD_RANGE ? MAXM : HEAD_RANGE; //biggest frame the wire format can carry
static const size_t MAXB = MAXFRAME - HL;

//the reference encoder: big endian length of the whole frame, then the body
static S ref_frame(const S& body)
{
	size_t t = body.size() + HL; S r;
	for (size_t i = HL; i-- > 0;) r += (char) (t >> (8 * i));
	return r + body;
}
static S bufstr(const boost::asio::const_buffer& b) {return S((const char*) b.data(), b.size());}
template<typename M> static S str(const M& m) {return m.size() ? S(m.data(), m.size()) : S();}

///////////////////////////////////////////////////////////////////// readers
//does what boost::asio::async_read plus tcp::socket_base::recv_handler do with an unpacker
struct Sink {std::vector<S> msgs; std::vector<S> raws; int errors; bool stuck; bool stop_at_error; Sink() : errors(0), stuck(false), stop_at_error(true) {}};

template<typename U> struct Reader
{
	U& u; Sink& k; bool pending, dead; size_t total, max, bufsize; std::vector<boost::asio::mutable_buffer> bufs; const char* why;
	Reader(U& u_, Sink& k_) : u(u_), k(k_), pending(false), dead(false), total(0), max(0), bufsize(0), why("") {}

	void put(size_t at, const char* d, size_t n)
	{
		for (size_t i = 0; i < bufs.size() && n > 0; ++i)
		{
			if (at >= bufs[i].size()) {at -= bufs[i].size(); continue;}
			size_t c = std::min(n, bufs[i].size() - at);
			memcpy((char*) bufs[i].data() + at, d, c); d += c; n -= c; at = 0;
		}
	}
	static void add(std::vector<boost::asio::mutable_buffer>& v, const boost::asio::mutable_buffer& b) {v.push_back(b);}
	template<typename T> static void add(std::vector<boost::asio::mutable_buffer>& v, const T& seq) {for (auto i = seq.begin(); i != seq.end(); ++i) v.push_back(*i);}

	void start()
	{
		bufs.clear(); add(bufs, u.prepare_next_recv());
		bufsize = 0; for (auto& b : bufs) bufsize += b.size();
		total = 0;
		if (0 == bufsize) {dead = k.stuck = true; why = "the unpacker offered an empty buffer"; return;}
		max = u.completion_condition(boost::system::error_code(), 0);
		if (0 == max) {dead = k.stuck = true; why = "the unpacker ended a read before any byte arrived: nothing is reported and receiving stops for good"; return;}
		pending = true;
	}
	void complete()
	{
		pending = false;
		typename U::container_type can;
		bool ok = u.parse_msg(total, can);
		for (auto i = can.begin(); i != can.end(); ++i)
		{
			k.msgs.push_back(str(*i));
			const typename U::msg_type& c = *i;
			const char* p = u.raw_data(c); size_t n = u.raw_data_len(c);
			const char* p2 = u.raw_data(*i);
			if (p != p2) pbt::fail("raw_data", "raw_data(msg&) and raw_data(const msg&) disagree");
			k.raws.push_back(n ? S(p, n) : S());
		}
		if (!ok) {++k.errors; u.reset(); if (k.stop_at_error) dead = true;}
	}
	//n bytes become available at once; consumes them all unless the link is dead
	void feed(const char* d, size_t n)
	{
		while (!dead)
		{
			if (!pending) {start(); if (!pending) return;}
			if (0 == n) return;
			size_t c = std::min(std::min(max, bufsize - total), n);
			put(total, d, c); d += c; n -= c; total += c;
			if (total < bufsize) max = u.completion_condition(boost::system::error_code(), total);
			if (total == bufsize || 0 == max) complete();
		}
	}
};

//cut points of a byte stream: arbitrary, byte by byte, around the given offsets, or none
static std::vector<size_t> cuts(pbt::Src& s, size_t len, const std::vector<size_t>& marks, size_t most = 40000)
{
	std::vector<size_t> c;
	switch (s.weighted({2, 3, 3, 2, 1}))
	{
	case 0: s.cls("chunks:whole"); break;
	case 1: {s.cls("chunks:around-boundaries"); for (size_t m : marks) if (s.coin(2, 3)) {size_t d = s.below(7); size_t p = m + d; c.push_back(p >= 3 ? p - 3 : 0);} break;}
	case 2: {s.cls("chunks:random"); size_t n = s.range(1, 12); for (size_t i = 0; i < n; ++i) c.push_back(s.below(len + 1)); break;}
	case 3: {s.cls("chunks:fixed-stride"); size_t st = s.range(1, 97); if (len / st > most) st = len / most + 1; for (size_t p = st; p < len; p += st) c.push_back(p); break;}
	default: {s.cls("chunks:byte-by-byte-head"); for (size_t p = 0; p < len && p < std::min<size_t>(4500, most); ++p) c.push_back(p); break;}
	}
	std::sort(c.begin(), c.end());
	std::vector<size_t> r; for (size_t p : c) if (p > 0 && p < len && (r.empty() || r.back() != p)) r.push_back(p);
	r.push_back(len);
	return r;
}
static S describe_cuts(const std::vector<size_t>& c) {S r; for (size_t i = 0; i < c.size() && i < 14; ++i) r += pbt::fmt(" %zu", c[i]); if (c.size() > 14) r += pbt::fmt(" ...(%zu)", c.size()); return r;}

//expected output of a stream of frames cut at `c`: after every chunk, exactly the complete messages have come out
struct Frame {size_t end; S msg, raw; bool silent;}; //end: offset behind the frame; silent: heartbeat
template<typename U> static void check_stream(U& u, const S& stream, const std::vector<Frame>& frames, const std::vector<size_t>& c, const char* what, size_t bad_at = (size_t) -1)
{
	Sink k; Reader<U> r(u, k);
	size_t pos = 0, fi = 0, want = 0;
	for (size_t e : c)
	{
		r.feed(stream.data() + pos, e - pos); pos = e;
		while (fi < frames.size() && frames[fi].end <= pos)
		{
			if (!frames[fi].silent)
			{
				if (want >= k.msgs.size()) pbt::fail("missing", "%s: after %zu of %zu bytes message %zu (%zu bytes, frame ends at %zu) is complete but was not delivered (%zu delivered, %d errors%s%s)", what, pos, stream.size(), want, frames[fi].raw.size(), frames[fi].end, k.msgs.size(), k.errors, r.dead ? ", receiving stopped: " : "", r.why);
				if (k.msgs[want] != frames[fi].msg) pbt::fail("corrupt", "%s: message %zu differs: expected %zu bytes %s, got %zu bytes %s", what, want, frames[fi].msg.size(), pbt::hex(frames[fi].msg).c_str(), k.msgs[want].size(), pbt::hex(k.msgs[want]).c_str());
				if (k.raws[want] != frames[fi].raw) pbt::fail("raw", "%s: raw_data of message %zu differs: expected %zu bytes %s, got %zu bytes %s", what, want, frames[fi].raw.size(), pbt::hex(frames[fi].raw).c_str(), k.raws[want].size(), pbt::hex(k.raws[want]).c_str());
				++want;
			}
			++fi;
		}
		if (k.msgs.size() > want) pbt::fail("extra", "%s: after %zu of %zu bytes %zu messages are complete but %zu were delivered, the extra one is %zu bytes %s", what, pos, stream.size(), want, k.msgs.size(), k.msgs[want].size(), pbt::hex(k.msgs[want]).c_str());
		if (pos >= bad_at)
		{
			if (k.stuck) pbt::fail("stuck", "%s: the malformed frame at offset %zu was not reported: %s", what, bad_at, r.why);
			if (0 == k.errors) pbt::fail("unreported", "%s: the malformed frame whose head ends at offset %zu was not reported after %zu bytes", what, bad_at, pos);
			return;
		}
		if (k.stuck) pbt::fail("stuck", "%s: after %zu of %zu bytes: %s", what, pos, stream.size(), r.why);
		if (k.errors) pbt::fail("false-error", "%s: a well-formed stream was reported as malformed after %zu of %zu bytes", what, pos, stream.size());
	}
}

///////////////////////////////////////////////////////////////////// length prefixed unpackers
typedef unpacker<> U_str; typedef unpacker<basic_buffer> U_bb; typedef flexible_unpacker<> U_flex; typedef flexible_unpacker<S> U_flexs;
typedef unpacker2<> U2_sh; typedef unpacker2<unique_buffer<basic_buffer>, basic_buffer, flexible_unpacker<> > U2_flex; typedef unpacker2<unique_buffer<S>, S, unpacker<> > U2_un;
static const char* lp_names[] = {"unpacker<string>", "unpacker<basic_buffer>", "flexible<basic_buffer>", "flexible<string>", "non_copy", "unpacker2<shared string>", "unpacker2<unique flexible>", "unpacker2<unique string>"};
template<typename F> static void with_lp(size_t kind, F f)
{
	//on the heap, so that every over-read of the receive buffer is seen
	switch (kind)
	{
	case 0: {std::unique_ptr<U_str> u(new U_str); f(*u); break;}
	case 1: {std::unique_ptr<U_bb> u(new U_bb); f(*u); break;}
	case 2: {std::unique_ptr<U_flex> u(new U_flex); f(*u); break;}
	case 3: {std::unique_ptr<U_flexs> u(new U_flexs); f(*u); break;}
	case 4: {std::unique_ptr<non_copy_unpacker> u(new non_copy_unpacker); f(*u); break;}
	case 5: {std::unique_ptr<U2_sh> u(new U2_sh); f(*u); break;}
	case 6: {std::unique_ptr<U2_flex> u(new U2_flex); f(*u); break;}
	default: {std::unique_ptr<U2_un> u(new U2_un); f(*u); break;}
	}
}

static S gen_body(pbt::Src& s, bool allow_empty = true)
{
	size_t n = s.size_near(MAXB, {MAXB, MAXB - 3, MAXB / 2, std::min<size_t>(MAXB, 4000 - HL), std::min<size_t>(MAXB, 4000), std::min<size_t>(MAXB, 3000), std::min<size_t>(MAXB, 255), 0});
	if (n > MAXB) n = MAXB;
	if (!allow_empty && 0 == n) n = 1;
	return s.bytes(n);
}

struct LpStream {S data; std::vector<Frame> frames; std::vector<size_t> marks; size_t hb, big;};
static LpStream gen_lp(pbt::Src& s, bool stripped, size_t max_frames)
{
	LpStream r; r.hb = r.big = 0;
	size_t n = s.range(0, max_frames);
	for (size_t i = 0; i < n && r.data.size() < 3 * MAXFRAME + 6000; ++i)
	{
		S body = s.coin(1, 6) ? S() : gen_body(s); //an empty body is the heartbeat
		S f = ref_frame(body);
		r.marks.push_back(r.data.size()); r.marks.push_back(r.data.size() + HL);
		r.data += f;
		Frame fr = {r.data.size(), stripped ? body : f, body, body.empty()};
		r.hb += body.empty(); r.big += f.size() > 4000;
		r.frames.push_back(fr);
		s.note("frame %zu bytes%s", f.size(), body.empty() ? " (heartbeat)" : "");
	}
	r.marks.push_back(r.data.size());
	return r;
}

PBT_TEST(lp_roundtrip, 6, false, 20)
{
	size_t kind = s.below(8); bool stripped = 4 == kind || !s.coin(1, 3);
	s.note("%s %s", lp_names[kind], stripped ? "stripped" : "unstripped");
	LpStream l = gen_lp(s, stripped, 14);
	//a second connection on the same unpacker: reset() in the middle of a message, then a new stream
	bool again = s.coin(1, 3);
	size_t cut_off = again ? s.below(l.data.size() + 1) : l.data.size();
	std::vector<size_t> c = cuts(s, l.data.size(), l.marks);
	s.note("cuts%s", describe_cuts(c).c_str());
	if (again) {std::vector<size_t> d; for (size_t p : c) if (p < cut_off) d.push_back(p); d.push_back(cut_off); c.swap(d);}
	LpStream l2; std::vector<size_t> c2;
	if (again) {l2 = gen_lp(s, stripped, 5); c2 = cuts(s, l2.data.size(), l2.marks); s.cls("reset-mid-stream"); s.note("connection lost at byte %zu, cuts%s", cut_off, describe_cuts(c2).c_str());}
	if (l.hb) s.cls("heartbeats"); if (l.big) s.cls("frames>4000"); if (!stripped) s.cls("unstripped");
	s.cls(lp_names[kind]);
	with_lp(kind, [&](auto& u) {
		u.stripped(stripped);
		check_stream(u, l.data, l.frames, c, lp_names[kind]);
		if (again) {u.reset(); check_stream(u, l2.data, l2.frames, c2, lp_names[kind]);}
	});
	if (l.frames.size() >= 2 && c.size() >= 2) s.nontrivial();
}

//hostile bytes: a valid prefix, then a frame that announces an impossible length (or plain noise), then anything
PBT_TEST(lp_hostile, 4, false, 20)
{
	size_t kind = s.below(8); bool stripped = 4 == kind || !s.coin(1, 3);
	s.note("%s %s", lp_names[kind], stripped ? "stripped" : "unstripped");
	LpStream l = gen_lp(s, stripped, 6);
	S data = l.data; std::vector<Frame> frames = l.frames; size_t bad_at = (size_t) -1;
	switch (s.weighted({5, 3}))
	{
	case 0:
		{
			size_t len; bool small = s.coin();
			if (small || HEAD_RANGE <= MAXM) len = s.below(HL); else len = s.coin() ? MAXM + 1 + s.below(16) : MAXM + 1 + s.below(HEAD_RANGE - MAXM);
			if (len > HEAD_RANGE) len = HEAD_RANGE;
			S h; for (size_t i = HL; i-- > 0;) h += (char) (len >> (8 * i));
			l.marks.push_back(data.size() + HL);
			data += h; bad_at = data.size();
			s.note("bad frame: length %zu", len); s.cls(small ? "bad:too-short" : "bad:too-long");
			data += s.bytes(s.size_near(5000, {0, 4000, MAXM < 4000 ? MAXM : 4000}));
			break;
		}
	default:
		{
			//noise: the reference parser decides where it goes wrong
			S noise = s.bytes(s.size_near(6000, {0, 1, 2, 4000}));
			if (s.coin()) {S t; for (size_t i = 0; i + 1 < noise.size(); i += 2) if ((unsigned char) noise[i] % 7 == 0) {t += ref_frame(S(1 + (unsigned char) noise[i + 1] % 5, 'x'));} noise = t + noise;}
			data += noise; s.cls("bad:noise"); s.note("noise %zu bytes", noise.size());
			size_t p = l.data.size();
			while (p + HL <= data.size())
			{
				size_t len = 0; for (size_t i = 0; i < HL; ++i) len = len << 8 | (unsigned char) data[p + i];
				if (len < HL || len > MAXM) {bad_at = p + HL; break;}
				if (p + len > data.size()) break;
				S f = data.substr(p, len); Frame fr = {p + len, stripped ? f.substr(HL) : f, f.substr(HL), len == HL};
				frames.push_back(fr); p += len;
			}
			break;
		}
	}
	std::vector<size_t> c = cuts(s, data.size(), l.marks);
	s.note("cuts%s", describe_cuts(c).c_str());
	LpStream l2 = gen_lp(s, stripped, 4); std::vector<size_t> c2 = cuts(s, l2.data.size(), l2.marks);
	s.cls(lp_names[kind]);
	with_lp(kind, [&](auto& u) {
		u.stripped(stripped);
		check_stream(u, data, frames, c, lp_names[kind], bad_at);
		u.dump_left_data();
		u.reset();
		check_stream(u, l2.data, l2.frames, c2, (S(lp_names[kind]) + " after the error").c_str());
	});
	if (bad_at != (size_t) -1 && l.frames.size() >= 1) s.nontrivial();
}

//anything at all, going on after errors as a user's on_unpack_error may choose to: memory safe, terminates, bounded output
PBT_TEST(any_bytes, 3, false, 20)
{
	size_t kind = s.below(11); bool stripped = 4 == kind || s.coin();
	S data; size_t n = s.range(1, 8);
	for (size_t i = 0; i < n; ++i)
		switch (s.weighted({3, 2, 2, 2}))
		{
		case 0: data += ref_frame(s.bytes(s.size_near(MAXB, {MAXB, std::min<size_t>(MAXB, 3998)}))); break;
		case 1: data += s.bytes(s.below(200)); break;
		case 2: data += S(s.below(5000), (char) s.pick({0, 255, 15, 16, 97, 98})); break;
		default: {S f = ref_frame(s.bytes(s.below(100))); data += f.substr(0, s.below(f.size() + 1)); break;}
		}
	std::vector<size_t> c = cuts(s, data.size(), std::vector<size_t>(), 8 == kind ? std::max<size_t>(100, 3000000 / (data.size() + 1)) : 40000);
	s.note("kind %zu, %zu bytes, cuts%s", kind, data.size(), describe_cuts(c).c_str());
	auto drive = [&](auto& u) {
		u.stripped(stripped);
		Sink k; k.stop_at_error = false;
		Reader<typename std::remove_reference<decltype(u)>::type> r(u, k);
		size_t pos = 0; for (size_t e : c) {r.feed(data.data() + pos, e - pos); pos = e; u.dump_left_data();}
		size_t out = 0; for (auto& m : k.msgs) out += m.size();
		PBT_CHECK(out <= data.size(), "invented", "%zu bytes went in, %zu came out", data.size(), out);
		PBT_CHECK(!k.stuck, "stuck", "kind %zu: %s", kind, r.why);
		if (k.errors) {s.cls("went-on-after-error"); s.nontrivial();}
	};
	if (kind < 8) with_lp(kind, drive);
	else if (8 == kind) {std::unique_ptr<prefix_suffix_unpacker> u(new prefix_suffix_unpacker); u->prefix_suffix(s.coin() ? "a" : "", s.coin() ? "b" : S(1, '\0')); drive(*u);}
	else if (9 == kind) {fixed_length_unpacker u; u.fixed_length(s.range(1, MAXM)); stripped = true; drive(u);}
	else {std::unique_ptr<stream_unpacker> u(new stream_unpacker); drive(*u);}
}

///////////////////////////////////////////////////////////////////// the other unpackers
static S small_alpha(pbt::Src& s, size_t n, const char* al, size_t an) {S r; for (size_t i = 0; i < n; ++i) r += al[s.below(an)]; return r;}

PBT_TEST(prefix_suffix, 5, false, 20)
{
	static const char al[] = {'a', 'b', '\0', '\xff'};
	S pre = small_alpha(s, s.below(5), al, 4), suf = small_alpha(s, s.range(1, 4), al, 4);
	bool stripped = !s.coin(1, 3);
	size_t min_len = pre.size() + suf.size();
	prefix_suffix_packer pk; pk.prefix_suffix(pre, suf);
	std::unique_ptr<prefix_suffix_unpacker> u(new prefix_suffix_unpacker); u->prefix_suffix(pre, suf); u->stripped(stripped);
	S data; std::vector<Frame> frames; std::vector<size_t> marks; size_t n = s.range(0, 10), hb = 0;
	for (size_t i = 0; i < n; ++i)
	{
		bool beat = s.coin(1, 6); S body;
		if (!beat)
		{
			if (MAXM > min_len && s.coin(1, 20)) {body = S(MAXM - min_len - s.below(std::min<size_t>(3, MAXM - min_len)), 'z'); s.cls("full-buffer");}
			else body = small_alpha(s, s.below(12), al, 4);
			if (body.size() + min_len > MAXM) body.resize(MAXM - min_len);
			size_t at = (body + suf).find(suf); //the body may not contain the suffix: a condition of the protocol
			body.resize(at);
		}
		S f = pre + body + suf; beat = body.empty();
		marks.push_back(data.size()); marks.push_back(data.size() + pre.size()); marks.push_back(data.size() + pre.size() + body.size());
		//the packer must produce exactly this
		S m; if (beat) pk.pack_heartbeat(m); else {const char* p = body.data(); size_t l = body.size(); PBT_CHECK(pk.pack_msg(m, &p, &l, 1), "pack", "pack_msg refused a %zu byte body", l);}
		PBT_CHECK(m == f, "pack", "prefix_suffix_packer: body %s packed as %s", pbt::hex(body).c_str(), pbt::hex(m).c_str());
		data += f; hb += beat;
		Frame fr = {data.size(), stripped ? body : f, body, beat};
		frames.push_back(fr);
	}
	size_t bad_at = (size_t) -1;
	switch (s.weighted({6, pre.empty() ? 0u : 4u, 2}))
	{
	case 1:
		{
			S bad = pre; size_t at = s.below(pre.size()); bad[at] = bad[at] == 'q' ? 'r' : 'q';
			marks.push_back(data.size()); data += bad; bad_at = data.size(); data += small_alpha(s, s.below(20), al, 4); s.cls("bad:prefix"); s.note("wrong prefix at %zu", bad_at - bad.size());
			break;
		}
	case 2: //a message that never ends
		{
			size_t room = MAXM; marks.push_back(data.size());
			data += pre; S fill(room - pre.size(), suf[0] == 'z' ? 'y' : 'z'); data += fill; bad_at = data.size(); data += small_alpha(s, s.below(20), al, 4); s.cls("bad:no-suffix"); s.note("no suffix");
			break;
		}
	}
	std::vector<size_t> c = cuts(s, data.size(), marks, std::max<size_t>(100, 3000000 / (data.size() + 1))); //the unpacker searches all it has after every read
	s.note("prefix %s suffix %s %s, %zu frames (%zu heartbeats), cuts%s", pbt::hex(pre).c_str(), pbt::hex(suf).c_str(), stripped ? "stripped" : "unstripped", frames.size(), hb, describe_cuts(c).c_str());
	if (hb) s.cls("heartbeats");
	check_stream(*u, data, frames, c, "prefix_suffix_unpacker", bad_at);
	u->dump_left_data(); u->reset();
	S body(3, 'k'); if (body.find(suf) == S::npos) {S f = pre + body + suf; std::vector<Frame> fr(1); fr[0].end = f.size(); fr[0].msg = stripped ? body : f; fr[0].raw = body; fr[0].silent = false; if (f.size() <= MAXM) check_stream(*u, f, fr, std::vector<size_t>(1, f.size()), "prefix_suffix_unpacker after reset");}
	if (frames.size() >= 2 && c.size() >= 2) s.nontrivial();
}

PBT_TEST(fixed_and_stream, 3, false, 20)
{
	S data; std::vector<Frame> frames; std::vector<size_t> marks;
	switch (s.below(3))
	{
	case 0:
		{
			size_t fl = s.coin(1, 5) ? MAXM : s.range(1, std::min<size_t>(MAXM, 200)); size_t n = s.range(0, 8);
			fixed_length_packer pk; fixed_length_unpacker u; u.fixed_length(fl);
			for (size_t i = 0; i < n; ++i)
			{
				S b = s.bytes(fl), m; const char* p = b.data(); size_t l = b.size();
				PBT_CHECK(pk.pack_msg(m, &p, &l, 1) && m == b, "pack", "fixed_length_packer changed a %zu byte message", l);
				data += b; Frame f = {data.size(), b, b, false}; frames.push_back(f); marks.push_back(data.size());
			}
			std::vector<size_t> c = cuts(s, data.size(), marks);
			size_t lost = s.coin(1, 3) ? s.below(data.size() + 1) : 0; //an earlier connection that broke in the middle of a message
			s.note("fixed length %zu, %zu messages, cuts%s, earlier connection broke after %zu bytes", fl, n, describe_cuts(c).c_str(), lost);
			if (lost) {Sink k; Reader<fixed_length_unpacker> r(u, k); r.feed(data.data(), lost); PBT_CHECK(k.msgs.size() == lost / fl, "missing", "fixed_length: %zu bytes gave %zu messages", lost, k.msgs.size()); u.reset(); s.cls("reset-mid-stream");}
			check_stream(u, data, frames, c, "fixed_length_unpacker");
			s.cls("fixed_length"); if (n >= 2 && c.size() >= 2) s.nontrivial();
			break;
		}
	case 1:
		{
			std::unique_ptr<stream_unpacker> u(new stream_unpacker); data = s.bytes(s.size_near(3 * MAXM, {MAXM, 2 * MAXM})); std::vector<size_t> c = cuts(s, data.size(), {std::min(MAXM, data.size())});
			s.note("stream %zu bytes, cuts%s", data.size(), describe_cuts(c).c_str());
			Sink k; Reader<stream_unpacker> r(*u, k); size_t pos = 0, m = 0; S got;
			for (size_t e : c)
			{
				r.feed(data.data() + pos, e - pos); pos = e;
				for (; m < k.msgs.size(); ++m) {PBT_CHECK(!k.msgs[m].empty() && k.msgs[m].size() <= MAXM, "size", "stream_unpacker delivered %zu bytes at once", k.msgs[m].size()); got += k.msgs[m];}
				PBT_CHECK(got == data.substr(0, pos), "corrupt", "stream_unpacker: %zu bytes went in, %zu came out", pos, got.size());
			}
			PBT_CHECK(!k.errors && !k.stuck, "false-error", "stream_unpacker reported an error or got stuck");
			s.cls("stream"); if (c.size() >= 2) s.nontrivial();
			break;
		}
	default:
		{
			//datagrams: one in, one out
			std::unique_ptr<udp_unpacker> u(new udp_unpacker); std::unique_ptr<udp_unpacker2<> > u2(new udp_unpacker2<>); size_t n = s.range(1, 6); udp_unpacker::container_type can; udp_unpacker2<>::container_type can2; std::vector<S> want;
			for (size_t i = 0; i < n; ++i)
			{
				S d = s.bytes(1 + s.size_near(MAXM - 1, {MAXM - 1, 0}));
				auto put = [&](auto& x) {std::vector<boost::asio::mutable_buffer> b; Reader<typename std::remove_reference<decltype(x)>::type>::add(b, x.prepare_next_recv()); PBT_CHECK(b.size() >= 1 && b[0].size() >= d.size(), "size", "udp buffer of %zu bytes", b[0].size()); memcpy(b[0].data(), d.data(), d.size());};
				put(*u); PBT_CHECK(u->parse_msg(d.size(), can), "pack", "udp_unpacker refused %zu bytes", d.size());
				put(*u2); PBT_CHECK(u2->parse_msg(d.size(), can2), "pack", "udp_unpacker2 refused %zu bytes", d.size());
				want.push_back(d);
			}
			PBT_CHECK(can.size() == n && can2.size() == n, "missing", "%zu datagrams gave %zu/%zu messages", n, can.size(), can2.size());
			auto a = can.begin(); auto b = can2.begin(); for (size_t i = 0; i < n; ++i, ++a, ++b) {PBT_CHECK(str(*a) == want[i], "corrupt", "udp datagram differs"); PBT_CHECK(str(*b) == want[i], "corrupt", "udp2 datagram differs");}
			s.note("%zu datagrams", n); s.cls("udp"); if (n >= 2) s.nontrivial();
			break;
		}
	}
}

///////////////////////////////////////////////////////////////////// packers
template<typename C> static S flat(C& c) {S r; for (auto i = c.begin(); i != c.end(); ++i) r += str(*i); return r;}

//make a message of each kind from bytes
static void mk(S& m, const S& b) {m = b;}
static void mk(basic_buffer& m, const S& b) {m.assign(b.data(), b.size());}
template<typename T> static T* raw_new(const S& b) {T* t = new T(); t->assign(b.data(), b.size()); return t;}
static void mk(unique_buffer<i_buffer>& m, const S& b) {m.raw_buffer(raw_new<string_buffer>(b));}
static void mk(shared_buffer<S>& m, const S& b) {m.raw_buffer(raw_new<S>(b));}
static void mk(shared_buffer<basic_buffer>& m, const S& b) {m.raw_buffer(raw_new<basic_buffer>(b));}

template<typename P> static void packer_case(pbt::Src& s, const char* name, bool has_head, bool head_limit)
{
	P pk; typedef typename P::msg_type M;
	size_t head = has_head ? HL : 0, limit = has_head ? MAXB : MAXM;
	(void) head_limit;
	auto frame = [&](const S& b) {return has_head ? ref_frame(b) : b;};
	size_t total_target = s.size_near(limit + 40, {limit, limit + 1, HEAD_RANGE < limit + 40 ? HEAD_RANGE - HL : limit, 0});
	size_t nparts = s.range(1, 5); S body; std::vector<S> parts; std::vector<const char*> ps; std::vector<size_t> ls; bool has_null = false;
	for (size_t i = 0; i < nparts; ++i)
	{
		size_t left = total_target - body.size(), n = i + 1 == nparts ? left : s.below(left + 1);
		parts.push_back(s.bytes(n)); body += parts.back();
	}
	for (auto& p : parts) {ps.push_back(p.data()); ls.push_back(p.size());}
	if (s.coin(1, 4)) {size_t at = s.below(ps.size() + 1); ps.insert(ps.begin() + at, (const char*) NULL); ls.insert(ls.begin() + at, s.below(100000)); has_null = true; s.cls("null-part");}
	bool native = s.coin(1, 4), fits = body.size() <= (native ? MAXM : limit);
	s.note("%s body %zu bytes in %zu parts%s%s", name, body.size(), nparts, has_null ? " + a NULL part" : "", native ? ", native" : "");
	s.cls(name); if (!fits) s.cls("too-long");

	//1. arrays
	{
		M m; bool ok = pk.pack_msg(m, &ps[0], &ls[0], ps.size(), native);
		S want = body.empty() ? S() : native ? body : frame(body);
		PBT_CHECK(ok == fits, "limit", "%s: pack_msg(arrays%s) of %zu bytes returned %d, limit %zu", name, native ? ", native" : "", body.size(), ok, native ? MAXM : limit);
		PBT_CHECK(str(m) == (ok ? want : S()), "bytes", "%s: pack_msg(arrays%s) of %zu bytes gave %zu bytes %s, expected %zu bytes %s", name, native ? ", native" : "", body.size(), m.size(), pbt::hex(str(m)).c_str(), want.size(), pbt::hex(want).c_str());
		if (ok && !native && !body.empty())
		{
			const M& cm = m; size_t rn = pk.raw_data_len(cm); PBT_CHECK(rn <= m.size(), "raw", "%s: raw_data_len is %zu for a packed message of %zu bytes", name, rn, m.size()); S raw(pk.raw_data(cm), rn), raw2(pk.raw_data(m), rn);
			PBT_CHECK(raw == body && raw2 == body, "raw", "%s: raw_data gave %zu bytes %s", name, raw.size(), pbt::hex(raw).c_str());
		}
	}
	//a length that would overflow the total is refused
	if (s.coin(1, 5))
	{
		std::vector<const char*> p2(ps); std::vector<size_t> l2(ls); char c = 0; p2.push_back(&c); l2.push_back((size_t) -1 - s.below(2 * MAXM)); M m;
		size_t at = s.below(p2.size()); std::swap(p2[at], p2.back()); std::swap(l2[at], l2.back());
		PBT_CHECK(!pk.pack_msg(m, &p2[0], &l2[0], p2.size(), native), "overflow", "%s: a length of SIZE_MAX-ish was accepted", name);
		PBT_CHECK(m.empty(), "overflow", "%s: message not empty after a refusal", name);
		s.cls("length-overflow");
	}
	PBT_CHECK(!pk.pack_msg(*std::unique_ptr<M>(new M), (const char* const*) NULL, &ls[0], 1, native), "null", "%s: NULL array accepted", name);
	fits = body.size() <= limit || !has_head;
	//2. one message -> container
	{
		M m; mk(m, body); typename P::container_type can; mk(can.emplace_back(), "pre"); 
		bool ok = pk.pack_msg(m, can);
		PBT_CHECK(ok == fits, "limit", "%s: pack_msg(msg, container) of %zu bytes returned %d, limit %zu", name, body.size(), ok, limit);
		S got = flat(can);
		if (ok) PBT_CHECK(got == "pre" + frame(body), "bytes", "%s: pack_msg(msg, container) of %zu bytes gave %zu bytes %s", name, body.size(), got.size(), pbt::hex(got).c_str());
		else PBT_CHECK(got == "pre" && str(m) == body, "lost", "%s: a refused message was consumed or something was emitted", name);
	}
	//3. two messages
	{
		size_t cut = s.below(body.size() + 1); S a = body.substr(0, cut), b = body.substr(cut);
		M m1, m2; mk(m1, a); mk(m2, b); typename P::container_type can;
		bool ok = pk.pack_msg(m1, m2, can); S got = flat(can);
		PBT_CHECK(ok == fits, "limit", "%s: pack_msg(msg, msg, container) of %zu+%zu bytes returned %d", name, a.size(), b.size(), ok);
		if (ok) PBT_CHECK(got == frame(body), "bytes", "%s: pack_msg(msg, msg, container) of %zu+%zu bytes gave %zu bytes %s", name, a.size(), b.size(), got.size(), pbt::hex(got).c_str());
		else PBT_CHECK(got.empty() && str(m1) == a && str(m2) == b, "lost", "%s: refused messages were consumed", name);
	}
	//4. container -> container
	{
		typename P::container_type in, out; for (auto& p : parts) mk(in.emplace_back(), p);
		bool ok = pk.pack_msg(in, out); S got = flat(out);
		PBT_CHECK(ok == fits, "limit", "%s: pack_msg(container, container) of %zu bytes returned %d", name, body.size(), ok);
		if (ok) PBT_CHECK(got == frame(body) && in.empty(), "bytes", "%s: pack_msg(container, container) of %zu bytes gave %zu bytes %s", name, body.size(), got.size(), pbt::hex(got).c_str());
		else PBT_CHECK(got.empty() && flat(in) == body, "lost", "%s: refused messages were consumed", name);
	}
	//5. the heartbeat: an empty frame, the same each time, whatever was done with the previous one
	if (has_head)
		for (int i = 0; i < 2; ++i)
		{
			M hb; PBT_CHECK(pk.pack_heartbeat(hb), "heartbeat", "%s: pack_heartbeat failed", name);
			PBT_CHECK(str(hb) == ref_frame(S()), "heartbeat", "%s: heartbeat is %s", name, pbt::hex(str(hb)).c_str());
			hb.clear();
		}
	else {M hb; pk.pack_heartbeat(hb); PBT_CHECK(hb.empty(), "heartbeat", "%s: there is no heartbeat in this protocol, pack_heartbeat gave %s", name, pbt::hex(str(hb)).c_str());}
	if (nparts >= 2 && !body.empty()) s.nontrivial();
}

PBT_TEST(packers, 5, false, 20)
{
	switch (s.below(6))
	{
	case 0: packer_case<packer<> >(s, "packer<string>", true, true); break;
	case 1: packer_case<packer<basic_buffer> >(s, "packer<basic_buffer>", true, true); break;
	case 2: packer_case<packer2<> >(s, "packer2<unique i_buffer>", true, true); break;
	case 3: packer_case<packer2<shared_buffer<S>, S> >(s, "packer2<shared string>", true, true); break;
	case 4: packer_case<packer2<shared_buffer<basic_buffer>, basic_buffer, packer<basic_buffer> > >(s, "packer2<shared basic_buffer>", true, true); break;
	default: packer_case<fixed_length_packer>(s, "fixed_length_packer", false, false); break;
	}
}

PBT_TEST(prefix_suffix_packers, 2, false, 20)
{
	S pre = s.bytes(s.below(6)), suf = s.bytes(s.range(1, 6)); size_t limit = MAXM - pre.size() - suf.size();
	prefix_suffix_packer pk; pk.prefix_suffix(pre, suf);
	S a = s.bytes(s.size_near(limit + 20, {limit, limit / 2})), b = s.bytes(s.size_near(limit, {limit > a.size() ? limit - a.size() : 0, 0})); S body = a + b;
	bool native = s.coin(1, 4), fits = body.size() <= (native ? MAXM : limit);
	s.note("prefix_suffix_packer %zu+%zu bytes, prefix %zu suffix %zu%s", a.size(), b.size(), pre.size(), suf.size(), native ? ", native" : "");
	const char* p[] = {a.data(), NULL, b.data()}; size_t l[] = {a.size(), 7, b.size()}; S m;
	bool ok = pk.pack_msg(m, p, l, 3, native);
	PBT_CHECK(ok == fits, "limit", "pack_msg(arrays) of %zu bytes returned %d, limit %zu", body.size(), ok, native ? MAXM : limit);
	S want = !ok || body.empty() ? S() : native ? body : pre + body + suf;
	PBT_CHECK(m == want, "bytes", "pack_msg(arrays) gave %zu bytes %s", m.size(), pbt::hex(m).c_str());
	if (ok && !native && !body.empty()) {const S& cm = m; PBT_CHECK(S(pk.raw_data(cm), pk.raw_data_len(cm)) == body && pk.raw_data(m) == pk.raw_data(cm), "raw", "raw_data differs");}
	fits = body.size() <= limit; if (!fits) s.cls("too-long");
	{S x = body; prefix_suffix_packer::container_type o; ok = pk.pack_msg(x, o); PBT_CHECK(ok == fits, "limit", "pack_msg(msg, container)"); if (ok) PBT_CHECK(flat(o) == pre + body + suf, "bytes", "pack_msg(msg, container)"); else PBT_CHECK(o.empty() && x == body, "lost", "refused message consumed");}
	{S x = a, y = b; prefix_suffix_packer::container_type o; ok = pk.pack_msg(x, y, o); PBT_CHECK(ok == fits, "limit", "pack_msg(msg, msg, container)"); if (ok) PBT_CHECK(flat(o) == pre + body + suf, "bytes", "pack_msg(msg, msg, container)"); else PBT_CHECK(o.empty() && x == a && y == b, "lost", "refused messages consumed");}
	{prefix_suffix_packer::container_type i, o; i.emplace_back(a); i.emplace_back(b); ok = pk.pack_msg(i, o); PBT_CHECK(ok == fits, "limit", "pack_msg(container, container)"); if (ok) PBT_CHECK(flat(o) == pre + body + suf && i.empty(), "bytes", "pack_msg(container, container)"); else PBT_CHECK(o.empty() && flat(i) == body, "lost", "refused messages consumed");}
	{S h; PBT_CHECK(pk.pack_heartbeat(h) && h == pre + suf, "heartbeat", "heartbeat is %s", pbt::hex(h).c_str());}
	if (!a.empty() && !b.empty()) s.nontrivial();
}

///////////////////////////////////////////////////////////////////// basic_buffer against std::string
PBT_TEST(basic_buffer_model, 6, false, 20)
{
	std::vector<std::unique_ptr<basic_buffer> > bb; std::vector<S> mo;
	auto gen = [&](size_t max) {return s.bytes(s.size_near(max, {15, 16, 17, 31, 32, 33, 48}));};
	auto cstr = [&]() {S t = gen(60); for (auto& c : t) if (!c) c = 'x'; return t;};
	auto check = [&](const char* op) {
		for (size_t i = 0; i < bb.size(); ++i)
		{
			PBT_CHECK(bb[i]->size() == mo[i].size() && bb[i]->empty() == mo[i].empty(), "size", "after %s: buffer %zu has size %zu, expected %zu", op, i, bb[i]->size(), mo[i].size());
			PBT_CHECK(str(*bb[i]) == mo[i], "content", "after %s: buffer %zu holds %s, expected %s", op, i, pbt::hex(str(*bb[i]), 60).c_str(), pbt::hex(mo[i], 60).c_str());
			PBT_CHECK(bb[i]->capacity() >= bb[i]->size(), "capacity", "after %s: capacity %zu < size %zu", op, bb[i]->capacity(), bb[i]->size());
		}
	};
	size_t n = s.range(2, 40), mutated = 0;
	for (size_t i = 0; i < n; ++i)
	{
		size_t op = bb.empty() ? 0 : s.below(27);
		size_t a = bb.empty() ? 0 : s.below(bb.size()), b = bb.empty() ? 0 : s.below(bb.size());
		const char* name = "?"; mutated += op > 0;
		switch (op)
		{
		case 0:
			{
				if (bb.size() >= 6) {bb.erase(bb.begin() + a); mo.erase(mo.begin() + a); name = "destroy"; break;}
				S t = gen(100), c = cstr(); basic_buffer* p = NULL; S m;
				switch (s.below(12))
				{
				case 0: p = new basic_buffer(); name = "ctor()"; break;
				case 1: p = new basic_buffer((const char*) t.data(), t.size()); m = t; name = "ctor(ptr, len)"; break;
				case 2: p = new basic_buffer(c.c_str()); m = c; name = "ctor(cstr)"; break;
				case 3: {size_t k = s.below(70); p = new basic_buffer(k, 'q'); m = S(k, 'q'); name = "ctor(count, char)"; break;}
				case 4: p = new basic_buffer(t); m = t; name = "ctor(string)"; break;
				case 5: {size_t pos = s.below(t.size() + 3); p = new basic_buffer(t, pos); m = pos < t.size() ? t.substr(pos) : S(); name = "ctor(string, pos)"; break;}
				case 6: {size_t pos = s.below(t.size() + 3), len = s.coin(1, 6) ? (size_t) -1 - s.below(3) : s.below(t.size() + 3); p = new basic_buffer(t, pos, len); m = pos < t.size() ? t.substr(pos, len) : S(); name = "ctor(string, pos, len)"; break;}
				case 7: {size_t k = s.below(70); p = new basic_buffer((size_t) k); PBT_CHECK(p->size() == k, "size", "basic_buffer(size_t %zu) has size %zu", k, p->size()); if (k) memset(p->data(), 'w', k); m = S(k, 'w'); name = "ctor(size_t)"; break;}
				case 8: {int k = (int) s.below(70) - 5; p = new basic_buffer(k); size_t w = k > 0 ? k : 0; PBT_CHECK(p->size() == w, "size", "basic_buffer(int %d) has size %zu", k, p->size()); if (w) memset(p->data(), 'v', w); m = S(w, 'v'); name = "ctor(int)"; break;}
				case 9: if (!bb.empty()) {p = new basic_buffer(*bb[a]); m = mo[a]; name = "copy ctor";} else p = new basic_buffer(); break;
				case 10: if (!bb.empty()) {size_t pos = s.below(mo[a].size() + 3), len = s.below(mo[a].size() + 3); p = new basic_buffer(*bb[a], pos, len); m = pos < mo[a].size() ? mo[a].substr(pos, len) : S(); name = "ctor(buffer, pos, len)";} else p = new basic_buffer(); break;
				default: {char arr[8] = "abcdefg"; size_t k = s.below(9); p = new basic_buffer(arr, k); m = S(arr, std::min<size_t>(8, k)); name = "ctor(array, len)"; break;}
				}
				bb.emplace_back(p); mo.push_back(m);
				break;
			}
		case 1: {S t = gen(80); bb[a]->append(t.data(), t.size()); mo[a].append(t); name = "append(ptr, len)"; break;}
		case 2: {size_t k = s.below(60); bb[a]->append(k, 'm'); mo[a].append(k, 'm'); name = "append(count, char)"; break;}
		case 3: bb[a]->append('z'); mo[a] += 'z'; name = "append(char)"; break;
		case 4: {S c = cstr(); bb[a]->append(c.c_str()); mo[a].append(c); name = "append(cstr)"; break;}
		case 5: if (a == b) s.cls("self-append"); bb[a]->append(*bb[b]); mo[a].append(S(mo[b])); name = "append(buffer)"; break;
		case 6: if (a == b) s.cls("self-append"); *bb[a] += *bb[b]; mo[a] += S(mo[b]); name = "+= buffer"; break;
		case 7: if (a == b) s.cls("self-assign"); *bb[a] = *bb[b]; mo[a] = S(mo[b]); name = "= buffer"; break;
		case 8: {S t = gen(60); *bb[a] = t; mo[a] = t; name = "= string"; break;}
		case 9: {S c = cstr(); *bb[a] = c.c_str(); mo[a] = c; name = "= cstr"; break;}
		case 10: *bb[a] = 'y'; mo[a] = S(1, 'y'); name = "= char"; break;
		case 11: {S c = cstr(); *bb[a] += c.c_str(); mo[a] += c; name = "+= cstr"; break;}
		case 12: {S t = gen(60); *bb[a] += t; mo[a] += t; name = "+= string"; break;}
		case 13:
			{
				size_t pos = s.below(mo[a].size() + 3), len = s.coin(1, 5) ? UINT_MAX : s.coin(1, 6) ? (size_t) -1 - s.below(4) : s.below(mo[a].size() + 3); bool threw = false; name = "erase";
				try {bb[a]->erase(pos, len);} catch (const std::out_of_range&) {threw = true;}
				PBT_CHECK(threw == (pos > mo[a].size()), "erase", "erase(%zu, %zu) on %zu bytes %s", pos, len, mo[a].size(), threw ? "threw" : "did not throw");
				if (!threw) mo[a].erase(pos, len);
				break;
			}
		case 14: bb[a]->erase(); mo[a].erase(); name = "erase()"; break;
		case 15: {size_t k = s.below(120), old = mo[a].size(); bb[a]->resize(k); if (k > old) memset(bb[a]->data() + old, 'r', k - old); mo[a].resize(k, 'r'); name = "resize"; break;}
		case 16: {S t = gen(60); bb[a]->assign(t.data(), t.size()); mo[a] = t; name = "assign(ptr, len)"; break;}
		case 17: {size_t k = s.below(90), old = mo[a].size(); bb[a]->assign(k); if (k > old) memset(bb[a]->data() + old, 's', k - old); mo[a].resize(k, 's'); name = "assign(len)"; break;}
		case 18: bb[a]->clear(); mo[a].clear(); name = "clear"; break;
		case 19: bb[a]->clean(); mo[a].clear(); PBT_CHECK(0 == bb[a]->capacity(), "capacity", "clean() kept %zu bytes", bb[a]->capacity()); name = "clean"; break;
		case 20: bb[a]->swap(*bb[b]); if (a != b) mo[a].swap(mo[b]); name = "swap"; break;
		case 21: {size_t k = s.below(300); bb[a]->reserve(k); PBT_CHECK(bb[a]->capacity() >= k, "capacity", "reserve(%zu) gave %zu", k, bb[a]->capacity()); name = "reserve"; break;}
		case 22: bb[a]->shrink_to_fit(); PBT_CHECK(bb[a]->capacity() <= mo[a].size() + 16, "capacity", "shrink_to_fit left %zu for %zu bytes", bb[a]->capacity(), mo[a].size()); name = "shrink_to_fit"; break;
		case 23: {S c = cstr(); if (!mo[a].empty() && 0 == mo[a].back()) {mo[a].resize(mo[a].size() - 1); s.cls("append2-over-nul");} bb[a]->append2(c.c_str()); mo[a].append(c.c_str(), c.size() + 1); name = "append2(cstr)"; break;}
		case 24: {S t = gen(40); if (s.coin()) t += '\0'; if (!mo[a].empty() && 0 == mo[a].back()) mo[a].resize(mo[a].size() - 1); bb[a]->append2(t.data(), t.size()); mo[a] += t; name = "append2(ptr, len)"; break;}
		case 25: //too long: refused, nothing changes
			{
				bool threw = false; size_t how = s.below(4); name = "too long"; size_t huge = (size_t) UINT_MAX + 1 + s.below(1000) - (how < 2 && !mo[a].empty() ? std::min<size_t>(mo[a].size(), 1 + s.below(3)) : 0);
				if (how < 2 && mo[a].empty()) huge = (size_t) UINT_MAX + 1 + s.below(9);
				if (mo[a].size() + huge <= UINT_MAX) huge = (size_t) UINT_MAX + 1;
				try {if (0 == how) bb[a]->append("x", huge); else if (1 == how) bb[a]->append(huge, 'c'); else if (2 == how) bb[a]->reserve((size_t) UINT_MAX + 1 + s.below(9)); else bb[a]->resize((size_t) UINT_MAX + 1 + s.below(9));}
				catch (const std::length_error&) {threw = true;}
				PBT_CHECK(threw, "length", "a request beyond max_size() (%zu + %zu) was accepted", mo[a].size(), huge); s.cls("beyond-max_size");
				break;
			}
		default: {size_t k = s.below(20), off = mo[a].empty() ? 0 : s.below(mo[a].size()); k = std::min(k, mo[a].size() - off); if (k) {bb[a]->append((const char*) bb[a]->data() + off, k); mo[a].append(mo[a].substr(off, k)); s.cls("append-own-part");} name = "append(own part)"; break;}
		}
		s.note("%s [%zu %zu]", name, a, b);
		check(name);
	}
	if (mutated >= 4) s.nontrivial();
}
