// C12: Chebyshev II law
#include "laws.h"
CHEB_CASES(Iir::ChebyshevII, 2)
