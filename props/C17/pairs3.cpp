#include "approx.hpp"
AP_PAIR(BaseR, RM, RA)
AP_PAIR(BaseR, RQ, RN)
AP_PAIR(BaseR, RN, RN)
AP_PAIR(BaseR, RA, RN)
AP_PAIR(BaseR, RB, RN)
AP_PAIR(BaseR, RF, RQ)
AP_PAIR(BaseR, RMm, RA)
AP_PAIR(BaseR, RQm, RQb)
AP_PAIR(BaseR, RQf, RA)
AP_PAIR(BaseR, RAf, RQb)
AP_PAIR(BaseT, TM, TQ)
AP_PAIR(BaseT, TQ, TQ)
AP_PAIR(BaseT, TN, TQ)
AP_PAIR(BaseT, TMf, TQ)
AP_PAIR(BaseT, TQf, TQ)
AP_PAIR(BaseT, TMm, TQ)
AP_PAIR(BaseT, TQb, TQ)
AP_PAIR(BaseR, RMs, RQs)
AP_PAIR(BaseR, RAs, RAs)
