#include <algorithm>
#include <cmath>
#include <cstdio>
#include <functional>
#include <map>
#include <numeric>
#include <stdexcept>
#include <thread>
#include <vector>
template <class T> struct V { T x, y, z; V operator+(const V &o) const { return {x + o.x, y + o.y, z + o.z}; } V operator*(T k) const { return {x * k, y * k, z * k}; } T dot(const V &o) const { return x * o.x + y * o.y + z * o.z; } };
struct G { double v; G(double a, double b) : v(a / b + 0.1) {} ~G() { std::printf("dtor %a\n", v * 3.0); } };
static G g1(1.0, 3.0);
static double g2 = [] { double s = 0; for (int i = 1; i < 10; i++) s += 1.0 / i; return s; }();
struct B { virtual double f(double x) const { return x * 1.5; } virtual ~B() = default; };
struct D : B { double f(double x) const override { return B::f(x) - 0.25; } };
static double thrower(int n) { double s = 0.5; try { for (int i = 0; i < n; i++) { s = s * 1.25 + i; if (s > 50) throw std::runtime_error("x"); } } catch (const std::exception &) { s = s / 2.0 - 1.0; } return s; }
int main() {
  V<float> a{1.1f, 2.2f, 3.3f}; V<double> b{1.1, -2.2, 3.3};
  for (int i = 0; i < 5; i++) { a = a + a * 0.3f; b = b * 1.7 + b; }
  std::printf("%a %a\n", (double)a.dot(a), b.dot(b));
  std::vector<double> v(50); for (int i = 0; i < 50; i++) v[i] = std::fmod(i * 37.7, 11.0) - 5;
  std::sort(v.begin(), v.end(), std::greater<double>());
  std::printf("%a %a\n", std::accumulate(v.begin(), v.end(), 0.0), std::inner_product(v.begin(), v.end(), v.rbegin(), 0.0));
  std::map<float, int> m; for (int i = 0; i < 20; i++) m[(i % 6) / 7.0f] += i;
  for (auto &k : m) std::printf("%a=%d ", (double)k.first, k.second);
  std::printf("%a %a %a\n", g1.v, g2, thrower(10));
  B *p = new D; std::printf("%a\n", p->f(2.5)); delete p;
  double acc[4] = {0}; std::vector<std::thread> t;
#ifdef SERIAL
#define RUN(F) F()
#else
#define RUN(F) t.emplace_back(F)
#endif
  for (int k = 0; k < 4; k++) RUN(([k, &acc] { for (int i = 1; i < 200; i++) acc[k] += (k + 1.0) / i; }));
  for (auto &x : t) x.join();
  std::printf("%a %a %a %a\n", acc[0], acc[1], acc[2], acc[3]);
  auto lam = [&](double x) { return x * g2 - acc[0]; };
  std::printf("%a\n", lam(2.0));
}
