// Replays operation sequences on brille::SortingStatus.
#include <stdexcept>
#include <string>
#include "sorting_status.hpp"
#include "emit.hpp"
using namespace brille;
int main() {
  std::string op; SortingStatus s;
  while (std::cin >> op) {
    if (op == "Reset") { s = SortingStatus(); emit::Event("Reset"); continue; }
    emit::Event e(op);
    long long ret = 0;
    try {
      if (op == "Make") { int a,b; unsigned v; std::cin >> a >> b >> v; e.f("s",(bool)a).f("k",(bool)b).f("v",v);
        s = SortingStatus((bool)a,(bool)b,v); ret = s.visits(); }
      else if (op == "SetFlag") { std::string f; int b; std::cin >> f >> b; e.f("f",f).f("b",(bool)b);
        ret = f=="sorted" ? s.sorted((bool)b) : f=="locked" ? s.locked((bool)b) : f=="queued" ? s.queued((bool)b) : s.claimed((bool)b); }
      else if (op == "SetVisits") { unsigned v; std::cin >> v; e.f("v",v); ret = s.visits(v); }
      else if (op == "AddVisit") { ret = s.addvisit(); }
      else if (op == "AddVisitUpTo") { unsigned v; std::cin >> v; e.f("v",v); ret = s.addvisit(v); }
      else if (op == "TryVisit") { unsigned v; std::cin >> v; e.f("v",v); ret = s.unlocked_addvisit_unsorted(v); }
      else BAD_SCRIPT("unknown op " << op);
    } catch (const std::overflow_error&) { ret = -1; }
    e.f("ret", ret);
    std::string st = std::string("{\"sorted\":") + emit::val(s.sorted()) + ",\"locked\":" + emit::val(s.locked())
      + ",\"queued\":" + emit::val(s.queued()) + ",\"claimed\":" + emit::val(s.claimed()) + ",\"visits\":" + emit::val((unsigned)s.visits())
      + ",\"visited\":" + emit::val(s.visited()) + ",\"queable\":" + emit::val(s.is_queable()) + "}";
    e.raw("st", st);
  }
}
