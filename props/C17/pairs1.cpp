#include "approx.hpp"
AP_PAIR(BaseR, RM, RQ)
AP_PAIR(BaseR, RQ, RM)
AP_PAIR(BaseR, RN, RM)
AP_PAIR(BaseR, RN, RAf)
AP_PAIR(BaseR, RB, RM)
AP_PAIR(BaseR, RB, RQb)
AP_PAIR(BaseR, RF, RAf)
AP_PAIR(BaseR, RQm, RQm)
AP_PAIR(BaseR, RMf, RAf)
AP_PAIR(BaseR, RAf, RMf)
AP_PAIR(BaseR, RQb, RQb)
AP_PAIR(BaseT, TM, TQb)
AP_PAIR(BaseT, TQ, TQb)
AP_PAIR(BaseT, TN, TQb)
AP_PAIR(BaseT, TMf, TQb)
AP_PAIR(BaseT, TQf, TQb)
AP_PAIR(BaseT, TMm, TQb)
AP_PAIR(BaseT, TQb, TQb)
AP_PAIR(BaseR, RAs, RMs)
