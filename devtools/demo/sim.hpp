// Simulated network for demonstrations: endpoints, a virtual clock, held or dropped packets,
// and a crypto adapter whose verdicts and timing the demonstration controls.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <functional>
#include <vector>
#include <arpa/inet.h>
#include <netinet/in.h>
#include "rtmfp/rtmfp.hpp"
#include "rtmfp/packet.hpp"
#include "rtmfp/VLU.hpp"
#include "rtmfp/Checksums.hpp"
#include "Session.hpp"

using namespace com::zenomt;
using namespace com::zenomt::rtmfp;

struct SimKey : SessionCryptoKey {
	size_t getEncryptSrcFrontMargin() override { return 0; }
	bool encrypt(uint8_t *dst, size_t &ioDstLen, uint8_t *src, size_t srcLen, size_t margin) override
	{ if(ioDstLen < srcLen - margin) return false; memmove(dst, src + margin, srcLen - margin); ioDstLen = srcLen - margin; return true; }
	bool decrypt(uint8_t *dst, size_t &ioDstLen, size_t &margin, const uint8_t *src, size_t srcLen) override
	{ if(ioDstLen < srcLen) return false; memmove(dst, src, srcLen); ioDstLen = srcLen; margin = 0; return true; }
	Bytes getNearNonce() override { return Bytes(1, 'n'); }
	Bytes getFarNonce() override { return Bytes(1, 'f'); }
	bool generateInitiatorKeyingComponent(std::shared_ptr<CryptoCert>, Bytes *out) override { *out = Bytes{'k', (uint8_t)(next()++)}; return true; }
	bool initiatorCombineResponderKeyingComponent(const uint8_t *, size_t len) override { return combineOk() && len > 0; }
	bool generateResponderKeyingComponent(std::shared_ptr<CryptoCert>, const uint8_t *, size_t len, Bytes *out) override { *out = Bytes(1, 'r'); return respondOk() && len > 0; }
	static int &next() { static int n = 0; return n; }
	static bool &combineOk() { static bool b = true; return b; }
	static bool &respondOk() { static bool b = true; return b; }
};

struct SimCrypto;
struct SimCert : CryptoCert {
	SimCrypto *a; Bytes id;
	SimCert(SimCrypto *a_, const Bytes &b) : a(a_), id(b) {}
	void isAuthentic(const Task &ok) override;
	bool isSelectedByEPD(const uint8_t *epd, size_t len) override { return Bytes(epd, epd + len) == id; }
	Bytes getCanonicalEPD() override { return id; }
	void checkSignature(const uint8_t *msg, size_t msgLen, const uint8_t *sig, size_t sigLen, const Task &ok) override;
	bool doesCertOverrideSession(std::shared_ptr<CryptoCert> o) override { return o && ((SimCert *)o.get())->id == id; }
	Bytes encode() override { return id; }
};

struct SimCrypto : ICryptoAdapter {
	Bytes id;
	bool authentic = true, goodSignature = true, holdAuth = false, holdSig = false, winGlare = false;
	std::vector<Task> heldAuth, heldSig;
	int authCalls = 0, sigCalls = 0, decodeCalls = 0, keyCalls = 0, signCalls = 0;
	SimCrypto(const char *s) : id(s, s + strlen(s)) {}
	std::shared_ptr<SessionCryptoKey> getKeyForNewSession() override { keyCalls++; return share_ref(new SimKey(), false); }
	Bytes getNearEncodedCertForEPD(const uint8_t *, size_t) override { return id; }
	bool isSelectedByEPD(const uint8_t *epd, size_t len) override { return Bytes(epd, epd + len) == id; }
	Bytes sign(const uint8_t *, size_t, std::shared_ptr<CryptoCert>) override { signCalls++; return Bytes(1, 'X'); }
	bool checkNearWinsGlare(std::shared_ptr<CryptoCert>) override { return winGlare; }
	std::shared_ptr<CryptoCert> decodeCertificate(const uint8_t *b, size_t len) override { decodeCalls++; return share_ref(new SimCert(this, Bytes(b, b + len)), false); }
	void pseudoRandomBytes(uint8_t *dst, size_t len) override { static unsigned x = 1; while(len--) { x = x * 1103515245 + 12345; *dst++ = x >> 16; } }
	void cryptoHash256(uint8_t *dst, const uint8_t *msg, size_t len) override { uint32_t c = ~crc32_le(msg, len); for(int i = 0; i < 8; i++) memcpy(dst + 4 * i, &c, 4); }
};
inline void SimCert::isAuthentic(const Task &ok) { a->authCalls++; if(a->holdAuth) a->heldAuth.push_back(ok); else if(a->authentic) ok(); }
inline void SimCert::checkSignature(const uint8_t *, size_t, const uint8_t *, size_t, const Task &ok) { a->sigCalls++; if(a->holdSig) a->heldSig.push_back(ok); else if(a->goodSignature) ok(); }

inline Address addr4(unsigned host, unsigned port)
{
	struct sockaddr_in sin;
	memset(&sin, 0, sizeof(sin));
	sin.sin_family = AF_INET;
	sin.sin_addr.s_addr = htonl(0x0a000000 + host);
	sin.sin_port = htons(port);
	return Address((struct sockaddr *)&sin);
}

struct Net;
struct Host : IPlatformAdapter {
	Net *net; Address addr; SimCrypto crypto; std::shared_ptr<RTMFP> rtmfp;
	std::deque<Task> tasks;
	bool immediate = false;     // run performed work in place
	std::deque<std::pair<int, std::function<bool(void)> > > writable;
	int shutdowns = 0, performs = 0, sent = 0, lastTos = 0;
	Host(Net *n, const char *id, unsigned num);
	Time getCurrentTime() override;
	bool notifyWhenInterfaceWritable(int id, const std::function<bool(void)> &f) override { writable.push_back(std::make_pair(id, f)); return true; }
	bool writePacket(const void *bytes, size_t len, int interfaceID, const struct sockaddr *a, socklen_t alen, int tos) override;
	bool perform(unsigned long thread, const Task &task) override { performs++; if(immediate) task(); else tasks.push_back(task); return true; }
	void onShutdownComplete() override { shutdowns++; }
	bool step()
	{
		bool did = false;
		while(!tasks.empty()) { Task t = tasks.front(); tasks.pop_front(); t(); did = true; }
		if(rtmfp) rtmfp->doTimerWork();
		size_t n = writable.size();
		while(n--) { auto w = writable.front(); writable.pop_front(); did = true; if(w.second()) writable.push_back(w); }
		return did;
	}
};

struct Dgram { Address from, to; Bytes data; int tos; };

struct Net {
	Time now = 1000;
	std::vector<Host *> hosts;
	std::deque<Dgram> wire;
	std::function<bool(Dgram &)> filter;    // false drops
	void send(const Dgram &d_) { Dgram d = d_; if(!filter || filter(d)) wire.push_back(d); }
	bool deliver()
	{
		bool did = false;
		size_t n = wire.size();
		while(n--)
		{
			Dgram d = wire.front(); wire.pop_front(); did = true;
			for(auto h : hosts) if(h->addr == d.to && h->rtmfp) h->rtmfp->onReceivePacket(d.data.data(), d.data.size(), 1, d.from.getSockaddr(), d.tos);
		}
		return did;
	}
	void run(Duration t, Duration tick = 0.01)
	{
		Time end = now + t;
		while(now < end)
		{
			for(int i = 0; i < 200; i++)
			{
				bool did = false;
				for(auto h : hosts) did |= h->step();
				did |= deliver();
				if(!did) break;
			}
			now += tick;
		}
	}
};

inline Host::Host(Net *n, const char *id, unsigned num) : net(n), addr(addr4(num, 1935)), crypto(id)
{
	rtmfp = share_ref(new RTMFP(this, &crypto), false);
	rtmfp->addInterface(1);
	n->hosts.push_back(this);
}
inline Time Host::getCurrentTime() { return net->now; }
inline bool Host::writePacket(const void *bytes, size_t len, int, const struct sockaddr *a, socklen_t, int tos)
{
	sent++; lastTos = tos;
	net->send(Dgram{addr, Address(a), Bytes((const uint8_t *)bytes, (const uint8_t *)bytes + len), tos});
	return true;
}

#define CHECK(c) do { if(!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while(0)
