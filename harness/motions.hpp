// Motions in scripts and events: nine integers and three integer multiples of 1/24.
#pragma once
#include "emit.hpp"
#include "motion.hpp"
#include "symmetry.hpp"
#include "pointsymmetry.hpp"
namespace mo {
typedef std::array<int,9> M9; typedef std::array<int,3> V3; typedef brille::Motion<int,double> Mot;
inline int num(std::istream& in){ int x; if (!(in>>x)) BAD_SCRIPT("number expected"); return x; }
inline M9 mat(std::istream& in){ M9 m; for (auto& x: m) x=num(in); return m; }
inline V3 vec(std::istream& in){ V3 m; for (auto& x: m) x=num(in); return m; }
inline Mot motion(std::istream& in){ M9 W=mat(in); V3 w=vec(in); return Mot(W, std::array<double,3>{{w[0]/24.,w[1]/24.,w[2]/24.}}); }
inline std::string m9(const M9& m){ return emit::val(m); }
inline std::string t3(const std::array<double,3>& t){ std::string o="["; for (int i=0;i<3;++i){ auto s=emit::scaled(t[i],24,1e-7); o+=(i?",":"")+(s.ok?std::to_string(s.i):std::string("\"inexact\"")); } return o+"]"; }
inline std::string mot(const Mot& m){ return "["+m9(m.getr())+","+t3(m.gett())+"]"; }
inline std::string mats(const std::vector<M9>& v){ std::string o="["; for (size_t i=0;i<v.size();++i) o+=(i?",":"")+m9(v[i]); return o+"]"; }
inline std::string mots(const std::vector<Mot>& v){ std::string o="["; for (size_t i=0;i<v.size();++i) o+=(i?",":"")+mot(v[i]); return o+"]"; }
}
