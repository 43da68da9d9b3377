#include "approx.hpp"
AP_PAIR(BaseV, VP, VP)
AP_PAIR(BaseV, VP, VPm)
AP_PAIR(BaseV, VP, VPf)
AP_PAIR(BaseV, VPm, VP)
AP_PAIR(BaseV, VPm, VPm)
AP_PAIR(BaseV, VPm, VPf)
AP_PAIR(BaseV, VPf, VP)
AP_PAIR(BaseV, VPf, VPm)
AP_PAIR(BaseV, VPf, VPf)
AP_PAIR(BaseV, VW, VW)
AP_PAIR(BaseV, VW, VWm)
AP_PAIR(BaseV, VW, VWf)
AP_PAIR(BaseV, VWm, VW)
AP_PAIR(BaseV, VWm, VWm)
AP_PAIR(BaseV, VWm, VWf)
AP_PAIR(BaseV, VWf, VW)
AP_PAIR(BaseV, VWf, VWm)
AP_PAIR(BaseV, VWf, VWf)
AP_PAIR(BaseV, VO, VO)
AP_PAIR(BaseV, VO, VOm)
AP_PAIR(BaseV, VO, VOf)
AP_PAIR(BaseV, VOm, VO)
AP_PAIR(BaseV, VOm, VOm)
AP_PAIR(BaseV, VOm, VOf)
AP_PAIR(BaseV, VOf, VO)
AP_PAIR(BaseV, VOf, VOm)
AP_PAIR(BaseV, VOf, VOf)
AP_PAIR(BaseX, XX, XX)
AP_PAIR(BaseX, XX, XXm)
AP_PAIR(BaseX, XX, XXf)
AP_PAIR(BaseX, XXm, XX)
AP_PAIR(BaseX, XXm, XXm)
AP_PAIR(BaseX, XXm, XXf)
AP_PAIR(BaseX, XXf, XX)
AP_PAIR(BaseX, XXf, XXm)
AP_PAIR(BaseX, XXf, XXf)
AP_PAIR(BaseX, XXs, XXs)
AP_PAIR(BaseS, SS, SS)
AP_PAIR(BaseS, SSs, SSs)
AP_PAIR(BaseV, Vs<wave::Translation>, Vs<wave::Translation>)
AP_PAIR(BaseV, Vs<wave::RelativeRotation>, Vs<wave::RelativeRotation>)
AP_PAIR(BaseV, Vs<wave::Point>, Vs<wave::Point>)
AP_ZERO(BaseV, VP)
AP_ZERO(BaseV, VPm)
AP_ZERO(BaseV, VPf)
AP_ZERO(BaseV, VW)
AP_ZERO(BaseV, VWm)
AP_ZERO(BaseV, VWf)
AP_ZERO(BaseV, VO)
AP_ZERO(BaseV, VOm)
AP_ZERO(BaseV, VOf)
AP_ZERO(BaseX, XX)
AP_ZERO(BaseX, XXm)
AP_ZERO(BaseX, XXf)
AP_ZERO(BaseX, XXs)
AP_ZERO(BaseS, SS)
AP_ZERO(BaseS, SSs)
AP_ZERO(BaseV, Vs<wave::Translation>)
AP_ZERO(BaseV, Vs<wave::RelativeRotation>)
AP_ZERO(BaseV, Vs<wave::Point>)
