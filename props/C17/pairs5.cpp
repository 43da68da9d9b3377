#include "approx.hpp"
AP_PAIR(BaseR, RM, RF)
AP_PAIR(BaseR, RQ, RF)
AP_PAIR(BaseR, RN, RB)
AP_PAIR(BaseR, RA, RB)
AP_PAIR(BaseR, RB, RB)
AP_PAIR(BaseR, RF, RB)
AP_PAIR(BaseR, RMm, RQf)
AP_PAIR(BaseR, RMf, RB)
AP_PAIR(BaseR, RQf, RQf)
AP_PAIR(BaseR, RQb, RB)
AP_PAIR(BaseT, TM, TMf)
AP_PAIR(BaseT, TQ, TMf)
AP_PAIR(BaseT, TN, TMf)
AP_PAIR(BaseT, TMf, TMf)
AP_PAIR(BaseT, TQf, TMf)
AP_PAIR(BaseT, TMm, TMf)
AP_PAIR(BaseT, TQb, TMf)
AP_PAIR(BaseR, RQs, RMs)
AP_PAIR(BaseT, TMs, TQs)
