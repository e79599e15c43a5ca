// C11: Chebyshev I law
#include "laws.h"
CHEB_CASES(Iir::ChebyshevI, 1)
