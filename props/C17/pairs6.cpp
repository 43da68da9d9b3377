#include "approx.hpp"
AP_PAIR(BaseR, RM, RMm)
AP_PAIR(BaseR, RQ, RMf)
AP_PAIR(BaseR, RN, RF)
AP_PAIR(BaseR, RA, RMm)
AP_PAIR(BaseR, RB, RF)
AP_PAIR(BaseR, RF, RF)
AP_PAIR(BaseR, RQm, RN)
AP_PAIR(BaseR, RMf, RQm)
AP_PAIR(BaseR, RAf, RN)
AP_PAIR(BaseR, RQb, RQm)
AP_PAIR(BaseT, TM, TQf)
AP_PAIR(BaseT, TQ, TQf)
AP_PAIR(BaseT, TN, TQf)
AP_PAIR(BaseT, TMf, TQf)
AP_PAIR(BaseT, TQf, TQf)
AP_PAIR(BaseT, TMm, TQf)
AP_PAIR(BaseT, TQb, TQf)
AP_PAIR(BaseR, RQs, RQs)
AP_PAIR(BaseT, TQs, TMs)
