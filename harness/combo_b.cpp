#include "combo.hpp"
int other() { return combo_check<2>() + combo_check<1>(); }
