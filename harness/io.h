// The target of implicit connections
#pragma once
#include "common.h"
#include "ConnectionManager.h"
#include "cip/connectionManager/NetworkConnectionParams.h"

using namespace eipScanner;
using cip::connectionManager::ConnectionParameters;
using cip::connectionManager::NetworkConnectionParams;

struct OpenRecord {
	ref::CipRequest q;
	ref::ForwardOpen fo;
	uint32_t o2tId = 0, t2oId = 0, o2tApi = 0, t2oApi = 0;
};
struct CloseRecord {
	ref::CipRequest q;
	ref::ForwardClose fc;
};

struct IoWorld : World {
	std::vector<OpenRecord> opens;
	std::vector<CloseRecord> closes;
	// how the next open is answered
	uint32_t nextO2t = 0xA0000001u;
	uint32_t t2oOverride = 0; // else the requested one
	uint32_t o2tApi = 0, t2oApi = 0; // else as requested
	uint8_t openStatus = 0, closeStatus = 0;
	std::vector<uint16_t> openAdditional;
	std::vector<ref::Item> openItems;
	int openDropTail = 0, openReplyWords = 0;

	IoWorld() {
		dev.onCip = [this](const ref::CipRequest& q) { return cip(q); };
	}
	ref::CipReply cip(const ref::CipRequest& q) {
		if ((q.service == 0x54 || q.service == 0x5B) && q.path.cls == 6 && q.path.inst == 1 && q.path.attr < 0) {
			OpenRecord rec;
			rec.q = q;
			rec.fo = ref::ForwardOpen::parse(q);
			if (!rec.fo.ok) { dev.problem("incomplete forward open"); return ref::CipReply::error(0x13); }
			if (openStatus) { opens.push_back(rec); return ref::CipReply::error(openStatus, openAdditional); }
			rec.o2tId = nextO2t++;
			rec.t2oId = t2oOverride ? t2oOverride : rec.fo.t2oId;
			rec.o2tApi = o2tApi ? o2tApi : rec.fo.o2tRpi;
			rec.t2oApi = t2oApi ? t2oApi : rec.fo.t2oRpi;
			opens.push_back(rec);
			ref::CipReply r(rec.fo.reply(rec.o2tId, rec.t2oId, rec.o2tApi, rec.t2oApi));
			if (openReplyWords) {
				// the application's part of the reply
				r.data[24] = static_cast<uint8_t>(openReplyWords);
				for (int i = 0; i < 2 * openReplyWords; ++i) r.data.push_back(static_cast<uint8_t>(0x40 + i));
			}
			r.extra = openItems;
			r.dropTail = openDropTail;
			return r;
		}
		if (q.service == 0x4E && q.path.cls == 6 && q.path.inst == 1 && q.path.attr < 0) {
			CloseRecord rec;
			rec.q = q;
			rec.fc = ref::ForwardClose::parse(q);
			if (!rec.fc.ok) { dev.problem("malformed forward close"); return ref::CipReply::error(0x13); }
			closes.push_back(rec);
			if (closeStatus) return ref::CipReply::error(closeStatus, {0x107});
			return ref::CipReply(rec.fc.reply());
		}
		dev.problem("unexpected request " + q.str());
		return ref::CipReply::error(8);
	}
};

/// Class 1, point to point, fixed sizes, the given intervals
inline ConnectionParameters ioParameters(uint32_t o2tRpi, uint32_t t2oRpi, unsigned o2tSize = 4, unsigned t2oSize = 4) {
	ConnectionParameters p;
	p.connectionPath = {0x20, 0x04, 0x24, 151, 0x2C, 150, 0x2C, 100};
	p.originatorVendorId = 342;
	p.originatorSerialNumber = 32423;
	p.o2tNetworkConnectionParams = NetworkConnectionParams::P2P | NetworkConnectionParams::SCHEDULED_PRIORITY | o2tSize;
	p.t2oNetworkConnectionParams = NetworkConnectionParams::P2P | NetworkConnectionParams::SCHEDULED_PRIORITY | t2oSize;
	p.o2tRPI = o2tRpi;
	p.t2oRPI = t2oRpi;
	p.transportTypeTrigger = NetworkConnectionParams::CLASS1;
	return p;
}
