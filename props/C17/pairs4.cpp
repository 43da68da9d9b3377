#include "approx.hpp"
AP_PAIR(BaseR, RM, RB)
AP_PAIR(BaseR, RQ, RB)
AP_PAIR(BaseR, RN, RA)
AP_PAIR(BaseR, RA, RA)
AP_PAIR(BaseR, RB, RA)
AP_PAIR(BaseR, RF, RN)
AP_PAIR(BaseR, RMm, RMm)
AP_PAIR(BaseR, RMf, RQ)
AP_PAIR(BaseR, RQf, RMm)
AP_PAIR(BaseR, RQb, RQ)
AP_PAIR(BaseT, TM, TN)
AP_PAIR(BaseT, TQ, TN)
AP_PAIR(BaseT, TN, TN)
AP_PAIR(BaseT, TMf, TN)
AP_PAIR(BaseT, TQf, TN)
AP_PAIR(BaseT, TMm, TN)
AP_PAIR(BaseT, TQb, TN)
AP_PAIR(BaseR, RMs, RAs)
AP_PAIR(BaseT, TMs, TMs)
