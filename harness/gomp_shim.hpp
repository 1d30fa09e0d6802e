#pragma once
#include <vector>
namespace shim {
// threads available, seed of the choices made when the picks are used up, function entries between choices (0: none), picks
void schedule(int threads, unsigned seed, unsigned preempt, const std::vector<int>& picks);
long switches(); long regions();
}
