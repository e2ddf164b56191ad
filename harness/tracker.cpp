// call counters: the register and the scope objects, for every operation
#include "hookdecl.h"
#include "BlasBooster/Utilities/Tracker.h"
#include VC_TRACKER_CPP
#include "tracker_ids.h"
using namespace BlasBooster;
#define CELLS(ID) vc_addr(&TrackerRegister::count[(size_t)TrackerID::ID]); vc_addr(&TrackerRegister::time[(size_t)TrackerID::ID]);
#define X(ID) ENTRY vc_trk_add_##ID(long d) { CELLS(ID) TrackerRegister::add(TrackerID::ID, clock::duration(d)); } \
              ENTRY vc_trk_scope_##ID() { CELLS(ID) { Tracker<TrackerID::ID> t; vc_point(1); } vc_point(2); }
TRACKERS
#undef X
#define X(ID) vc_int((long)TrackerID::ID);
ENTRY vc_trk_ids() { vc_int((long)TrackerID::size); vc_int(TrackerRegister::count.size()); vc_int(TrackerRegister::time.size()); TRACKERS }
#undef X
