#include "approx.hpp"
AP_PAIR(BaseR, RM, RM)
AP_PAIR(BaseR, RM, RQf)
AP_PAIR(BaseR, RQ, RQb)
AP_PAIR(BaseR, RN, RQm)
AP_PAIR(BaseR, RA, RQf)
AP_PAIR(BaseR, RB, RMf)
AP_PAIR(BaseR, RF, RQm)
AP_PAIR(BaseR, RQm, RF)
AP_PAIR(BaseR, RMf, RMf)
AP_PAIR(BaseR, RAf, RF)
AP_PAIR(BaseR, RQb, RAf)
AP_PAIR(BaseT, TM, TMm)
AP_PAIR(BaseT, TQ, TMm)
AP_PAIR(BaseT, TN, TMm)
AP_PAIR(BaseT, TMf, TMm)
AP_PAIR(BaseT, TQf, TMm)
AP_PAIR(BaseT, TMm, TMm)
AP_PAIR(BaseT, TQb, TMm)
AP_PAIR(BaseR, RQs, RAs)
AP_PAIR(BaseT, TQs, TQs)
