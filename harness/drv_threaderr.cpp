// Parallel loops whose iterations raise errors, collected by the implementation's ThreadException.
#include <stdexcept>
#include <string>
#include <thread>
#include <mutex>
#include <regex>
#include <chrono>
#include <omp.h>
#include "thread_exception.h"
#include "emit.hpp"
struct Custom: std::exception { std::string m; explicit Custom(std::string s): m(std::move(s)){} const char* what() const noexcept override { return m.c_str(); } };
static void toss(int kind, int tok){ std::string s="<e"+std::to_string(tok)+">"; switch(kind){ case 1: throw std::runtime_error(s); case 2: throw std::logic_error(s); case 3: throw Custom(s); case 4: throw std::out_of_range(s); case 5: throw tok; case 6: throw s; } }
int main(){
  std::string op;
  while (std::cin>>op){
    if (op=="Reset"){ emit::Event("Reset"); continue; }
    // Loop <threads> <schedule> <n> kinds... : kind 0 does not raise, 1..4 std exceptions, 5 an int, 6 a string
    if (op!="Loop") BAD_SCRIPT("unknown op "<<op);
    int threads,sched,n; std::cin>>threads>>sched>>n; std::vector<int> kind(n); for(int& k:kind) std::cin>>k;
    emit::Event("Loop").f("threads",threads).f("n",n);
    ThreadException ex; std::vector<int> ran(n,0); omp_set_num_threads(threads);
    auto body=[&](int i){ ran[i]++; if (sched==2) std::this_thread::sleep_for(std::chrono::microseconds((i*37)%90)); toss(kind[i], kind[i]>4 ? i+1 : i+1); };
    if (sched==0) for(int i=0;i<n;++i) ex.run(body,i);
    else if (sched==3){ std::vector<std::thread> ts; for(int t=0;t<threads;++t) ts.emplace_back([&,t]{ for(int i=t;i<n;i+=threads) ex.run([&]{ body(i); }); }); for(auto& t:ts) t.join(); }
    else {
      #pragma omp parallel for schedule(dynamic)
      for(int i=0;i<n;++i) ex.run([&]{ body(i); });
    }
    // each iteration raised once, in its own run: report what was raised (a name when the error has a text)
    int std_=0, other=0, last=-1;
    for(int i=0;i<n;++i) if (kind[i]) { emit::Event("Raise").f("token", kind[i]>4 ? -(i+1) : (i+1)); (kind[i]>4?other:std_)++; last=i; }
    bool threw=false, same=false; std::string msg;
    auto type=[&](int k){ return last>=0 && kind[last]==k && msg=="<e"+std::to_string(last+1)+">"; };
    try { ex.rethrow(); }
    catch (const Custom& e){ threw=true; msg=e.what(); same=type(3); }
    catch (const std::out_of_range& e){ threw=true; msg=e.what(); same=type(4); }
    catch (const std::logic_error& e){ threw=true; msg=e.what(); same=type(2); }
    catch (const std::runtime_error& e){ threw=true; msg=e.what(); same=type(1); }
    catch (const std::exception& e){ threw=true; msg=e.what(); }
    catch (int v){ threw=true; same = last>=0 && kind[last]==5 && v==last+1; }
    catch (const std::string& s){ threw=true; same = last>=0 && kind[last]==6 && s=="<e"+std::to_string(last+1)+">"; }
    std::vector<int> named; std::regex re("<e(\\d+)>"); for (std::sregex_iterator it(msg.begin(),msg.end(),re),en; it!=en; ++it) named.push_back(std::stoi((*it)[1]));
    bool after=true; for(int r:ran) after = after && r==1;
    emit::Event("Caller").f("threw",threw).f("named",named).f("unchanged",same).f("after",after);
  }
}
