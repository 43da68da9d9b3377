#include "approx.hpp"
AP_PAIR(BaseR, RM, RN)
AP_PAIR(BaseR, RQ, RQ)
AP_PAIR(BaseR, RN, RQ)
AP_PAIR(BaseR, RA, RM)
AP_PAIR(BaseR, RB, RQ)
AP_PAIR(BaseR, RF, RM)
AP_PAIR(BaseR, RMm, RM)
AP_PAIR(BaseR, RQm, RMf)
AP_PAIR(BaseR, RQf, RM)
AP_PAIR(BaseR, RAf, RAf)
AP_PAIR(BaseT, TM, TM)
AP_PAIR(BaseT, TQ, TM)
AP_PAIR(BaseT, TN, TM)
AP_PAIR(BaseT, TMf, TM)
AP_PAIR(BaseT, TQf, TM)
AP_PAIR(BaseT, TMm, TM)
AP_PAIR(BaseT, TQb, TM)
AP_PAIR(BaseR, RMs, RMs)
AP_PAIR(BaseR, RAs, RQs)
