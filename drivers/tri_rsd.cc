#include "tri.hh"
#include <fcntl.h>
#include <csignal>
SCENARIO(wrsd, 500, 20000) { tri::rsd_case(R, [](auto& T, auto& f) { return clpoly::wrsd(T, f); }, "wrsd", false); }
SCENARIO(rsd, 500, 20000) { tri::rsd_case(R, [](auto& T, auto& f) { return clpoly::rsd(T, f); }, "rsd", true); }
SCENARIO(sqrfree_chain, 400, 20000) { tri::sqf_case(R); }
// recorded finding: rsd({3x0^3, x1^3+472x0x1^2-473x0^2x1}, 3x0^3x1-9x0^4+3x0) recurses without end (run in a child with a small stack)
SCENARIO(known_rsd_nilpotent, 1, 1) { using namespace tri; cv::vars(6); clex o(clpoly::custom_var_order(std::vector<variable>{cv::V()[1], cv::V()[0]})); X c; c.own = o; c.comp = &c.own; Z a = Z::var(0), b = Z::var(1); auto k = [](long v) { return Z(mpz_class(v)); }; ZS s{k(3) * a * a * a, b * b * b + k(472) * a * b * b - k(473) * a * a * b}; Z f = k(3) * a * a * a * b - k(9) * a * a * a * a + k(3) * a;
    vh::desc("rsd [x1>x0] T=" + s[0].str() + " ; " + s[1].str() + " f=" + f.str()); std::vector<Poly> L; for (auto& x : s) L.push_back(c.mk(x)); auto A = c.mk(f); fflush(nullptr); pid_t p = fork(); if (p == 0) { signal(SIGSEGV, SIG_DFL); int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); alarm(60); auto W = clpoly::rsd(L, A); _exit(W.first.size() == 1 && W.second.empty() ? 0 : 3); } int st = 0; waitpid(p, &st, 0); vh::event("recorded finding replayed"); VREQ(WIFEXITED(st) && WEXITSTATUS(st) == 0, "unbounded-recursion", "rsd does not return (stack exhausted)"); }
