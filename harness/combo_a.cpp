#include "combo.hpp"
int other();
int main() {
    std::cout.setstate(std::ios::failbit);
    int bad = combo_check<3>() + other();
    if (bad) std::printf("%d wrong results\n", bad);
    return bad != 0;
}
