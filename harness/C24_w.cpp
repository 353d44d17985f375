// BOUND: 20 images and labels (training) and 12 and 9 (test), every byte but the labels arbitrary
#include "sym.hpp"
#include "dataset.hpp"
#include <fstream>
#include <filesystem>
#include <unistd.h>
#include <sys/stat.h>
using namespace vh;
typedef std::vector<unsigned char> bytes;
struct dir { std::string d; std::vector<std::string> f; dir() { d = new_dir(); } ~dir() { for (auto const &x : f) std::remove((d + "/" + x).c_str()); ::rmdir(d.c_str()); }
  void put(std::string const &n, bytes const &b) { f.push_back(n); sym_file((d + "/" + n).c_str(), b.data(), b.size()); } };
static bytes any(u64 n) { bytes b(n); if (n) sym_bytes(b.data(), n); return b; }
static bytes labels(u64 n) { bytes b = any(8); for (u64 i = 0; i < n; i++) b.push_back((i * 7 + 3) % 10); return b; }
static const char *const names[4] = {"train-images-idx3-ubyte", "train-labels-idx1-ubyte", "t10k-images-idx3-ubyte", "t10k-labels-idx1-ubyte"};
static void images_are(tensor<std::uint8_t> const &t, bytes const &f) { u64 n = (f.size() - 16) / 784; sym_assert(same_shape(t, {n, 28, 28}), "shape of the images"); sym_assert(t.size() == n * 784, "size"); if (n) sym_eq_u8(t.data(), f.data() + 16, n * 784, "pixels"); }
static void labels_are(tensor<std::uint8_t> const &t, bytes const &f) { u64 n = f.size() - 8; sym_assert(same_shape(t, {n, 10}), "shape of the labels"); sym_assert(t.size() == n * 10, "size"); std::vector<std::uint8_t> ref(n * 10); for (u64 i = 0; i < n; i++) for (u64 j = 0; j < 10; j++) ref[i * 10 + j] = f[8 + i] == j ? 1 : 0; if (n) sym_eq_u8(t.data(), ref.data(), n * 10, "one-hot labels"); }
template <typename L> static void loads(L load, u64 a, u64 b, u64 c, u64 d) { bytes f[4] = {any(16 + a * 784), labels(b), any(16 + c * 784), labels(d)}; dir s; for (int i = 0; i < 4; i++) s.put(names[i], f[i]);
  auto const &[xt, yt, xv, yv] = load(s.d); images_are(xt, f[0]); labels_are(yt, f[1]); images_are(xv, f[2]); labels_are(yv, f[3]); }
static auto M = [](std::string const &p) { return dataset::mnist::load_data(p); };
static auto F = [](std::string const &p) { return dataset::fashion_mnist::load_data(p); };
HARNESS(wide_mnist) { loads(M, 20, 20, 12, 9); }
HARNESS(wide_fashion) { loads(F, 9, 20, 10, 12); }
