// the packer/unpacker pair a program is built for (NET_TRAIT), and the reference model of its wire format
#ifndef TRAITS_H_
#define TRAITS_H_
#include "pbt.h"
#include "quiet.h"
#ifndef NET_TRAIT
#define NET_TRAIT 0
#endif
#include "net.h"

namespace net {
using namespace st_asio_wrapper::ext;
#if 0 == NET_TRAIT
typedef packer<> P_; typedef unpacker<> U_;
#elif 1 == NET_TRAIT
typedef packer<> P_; typedef flexible_unpacker<> U_;
#elif 2 == NET_TRAIT
typedef packer<basic_buffer> P_; typedef non_copy_unpacker U_;
#elif 3 == NET_TRAIT
typedef packer2<unique_buffer<i_buffer>, string_buffer> P_; typedef unpacker2<> U_;
#elif 4 == NET_TRAIT
typedef packer2<shared_buffer<i_buffer>, string_buffer> P_; typedef unpacker2<unique_buffer<basic_buffer>, basic_buffer, flexible_unpacker<> > U_;
#elif 5 == NET_TRAIT
typedef prefix_suffix_packer P_; typedef prefix_suffix_unpacker U_;
#elif 6 == NET_TRAIT
typedef fixed_length_packer P_; typedef fixed_length_unpacker U_;
#else
typedef packer<> P_; typedef stream_unpacker U_;
#endif

struct Trait
{
	enum {stream = NET_TRAIT >= 7, lp = NET_TRAIT <= 4 || NET_TRAIT >= 7, FIXED = 37};
#if 5 == NET_TRAIT
	static string prefix() {return "<[";}
	static string suffix() {return "]>\n";}
	static string frame(const string& b) {return prefix() + b + suffix();}
	static string heartbeat() {return prefix() + suffix();}
	static size_t max_body() {return ST_ASIO_MSG_BUFFER_SIZE - prefix().size() - suffix().size();}
	template<typename S> static void init(S& s) {boost::dynamic_pointer_cast<P_>(s.packer())->prefix_suffix(prefix(), suffix()); boost::dynamic_pointer_cast<U_>(s.unpacker())->prefix_suffix(prefix(), suffix());}
	static string body(pbt::Src& s, size_t n) {string b = s.bytes(n); for (size_t i = 0; i < n; ++i) b[i] = "ab]>[<x"[(unsigned char) b[i] % 7]; return b;} //never the whole suffix: no line feed
	static void decode(const string& w, size_t& pos, vector<string>& out, vector<size_t>& ends, bool lenient = false)
	{
		for (;;)
		{
			size_t e = w.find(suffix(), pos); if (e == string::npos) return;
			size_t b = pos + prefix().size(); if (e > b) {out.push_back(w.substr(b, e - b)); ends.push_back(e + suffix().size());}
			pos = e + suffix().size();
		}
	}
#elif 6 == NET_TRAIT
	static string frame(const string& b) {return b;}
	static string heartbeat() {return string();}
	static size_t max_body() {return FIXED * 3;}
	template<typename S> static void init(S& s) {boost::dynamic_pointer_cast<U_>(s.unpacker())->fixed_length(FIXED);}
	static string body(pbt::Src& s, size_t n) {n = FIXED * (1 + n % 3); return s.bytes(n);}
	static void decode(const string& w, size_t& pos, vector<string>& out, vector<size_t>& ends, bool lenient = false) {while (pos + FIXED <= w.size()) {out.push_back(w.substr(pos, FIXED)); pos += FIXED; ends.push_back(pos);}}
#else
	static string frame(const string& b) {return encode_lp(b);}
	static string heartbeat() {return encode_lp(string());}
	static size_t max_body() {return ST_ASIO_MSG_BUFFER_SIZE - ST_ASIO_HEAD_LEN;}
	template<typename S> static void init(S&) {}
	static string body(pbt::Src& s, size_t n) {return s.bytes(n);}
	static void decode(const string& w, size_t& pos, vector<string>& out, vector<size_t>& ends, bool lenient = false)
	{
		if (stream) {pos = w.size(); return;}
		const size_t H = ST_ASIO_HEAD_LEN;
		while (pos + H <= w.size())
		{
			size_t n = 0; for (size_t i = 0; i < H; ++i) n = n * 256 + (unsigned char) w[pos + i];
			if (n < H && lenient) return;
			if (n < H) {pbt::fail("wire", "a frame of length %zu was put on the wire at offset %zu", n, pos);}
			if (pos + n > w.size()) return;
			if (n > H) {out.push_back(w.substr(pos + H, n - H)); ends.push_back(pos + n);}
			pos += n;
		}
	}
#endif
	static size_t max_read() {return 1 == NET_TRAIT || 4 == NET_TRAIT ? std::max<size_t>(4000, ST_ASIO_MSG_BUFFER_SIZE) : ST_ASIO_MSG_BUFFER_SIZE;} //the unpacker's buffer
	static bool complete(const string& w, size_t pos) {return pos == w.size();}
	static bool api_ok(int a)
	{
		if (a == A_MSG_CONST || a == A_MSG2_CONST || a == A_N_MSG_CONST || a == A_D_CONST) return NET_TRAIT != 3 && NET_TRAIT != 4;
		return true;
	}
	//what a send puts into the queue
	static void expect(int api, const vector<string>& parts, const string& all, vector<string>& add, bool& re)
	{
		if (!api_packs(api))
		{
			bool list = A_N_LIST == api || A_D_LIST == api || A_N_MSG2 == api;
			if (list) add = parts; else if (all.size() <= ST_ASIO_MSG_BUFFER_SIZE || (A_N_PTR != api && A_N_PARTS != api && A_SAFE_N_PTR != api)) add.push_back(all);
			return;
		}
		if (6 == NET_TRAIT)
		{
			if (api_multi(api)) {if (A_MSG2 == api || A_MSG2_CONST == api || A_LIST == api) add = parts; else add.push_back(all);}
			else if (all.size() <= ST_ASIO_MSG_BUFFER_SIZE) add.push_back(all);
			return;
		}
		if (all.size() > max_body()) {re = !api_multi(api); return;}
		if (!api_multi(api)) {add.push_back(frame(all)); return;}
		string f = frame(string()), head = f, tail;
#if 5 == NET_TRAIT
		head = prefix(); tail = suffix();
#else
		head = frame(all).substr(0, ST_ASIO_HEAD_LEN);
#endif
		add.push_back(head);
		if (A_MSG2 == api || A_MSG2_CONST == api || A_LIST == api) add.insert(add.end(), parts.begin(), parts.end()); else add.push_back(all);
		if (!tail.empty()) add.push_back(tail);
	}
};

typedef Tap<st_asio_wrapper::tcp::server_socket_base<P_, U_>, st_asio_wrapper::tcp::i_server, true> SBase;
struct SSock : SBase {SSock(st_asio_wrapper::tcp::i_server& s) : SBase(s) {Trait::init(*this);}};
typedef ClientTap<st_asio_wrapper::tcp::client_socket_base<P_, U_>, i_matrix> CBase;
struct CSock : CBase {CSock(i_matrix& m) : CBase(m) {Trait::init(*this);}};
typedef Server<SSock> Srv;
typedef st_asio_wrapper::tcp::multi_client_base<CSock> Cli;
} //namespace
#endif
