// BOUND: image files of 0 to 3 images and label files of 0 to 6 labels, every byte of the images, of the labels and of the headers arbitrary; both data sets; damaged files: cut anywhere in the header, cut inside an image, any label of 10 or more, a missing file
// ASSUME: the file system returns the bytes that were written
// OUTSIDE: whether the counts in the header agree with the length of the file (the loader goes by the length); real data sets with tens of thousands of samples
#include "sym.hpp"
#include "dataset.hpp"
#include <fstream>
#include <filesystem>
#include <unistd.h>
#include <sys/stat.h>
using namespace vh;
typedef std::vector<unsigned char> bytes;
struct dir { std::string d; std::vector<std::string> f; dir() { d = new_dir(); } ~dir() { for (auto const &x : f) std::remove((d + "/" + x).c_str()); ::rmdir(d.c_str()); }
  void put(std::string const &n, bytes const &b) { f.push_back(n); sym_file((d + "/" + n).c_str(), b.data(), b.size()); } };
static bytes any(u64 n) { bytes b(n); if (n) sym_bytes(b.data(), n); return b; }
// the labels are chosen before the files are written: a path per choice, with files of its own
static bytes labels(u64 n) { bytes b = any(8); for (u64 i = 0; i < n; i++) b.push_back(i == n / 2 ? sym_choose(0, 9) : (i * 7 + 3) % 10); return b; }
static const char *const names[4] = {"train-images-idx3-ubyte", "train-labels-idx1-ubyte", "t10k-images-idx3-ubyte", "t10k-labels-idx1-ubyte"};
static void images_are(tensor<std::uint8_t> const &t, bytes const &f) { u64 n = (f.size() - 16) / 784; sym_assert(same_shape(t, {n, 28, 28}), "shape of the images"); sym_assert(t.size() == n * 784, "size"); if (n) sym_eq_u8(t.data(), f.data() + 16, n * 784, "pixels"); }
static void labels_are(tensor<std::uint8_t> const &t, bytes const &f) { u64 n = f.size() - 8; sym_assert(same_shape(t, {n, 10}), "shape of the labels"); sym_assert(t.size() == n * 10, "size"); std::vector<std::uint8_t> ref(n * 10); for (u64 i = 0; i < n; i++) for (u64 j = 0; j < 10; j++) ref[i * 10 + j] = f[8 + i] == j ? 1 : 0; if (n) sym_eq_u8(t.data(), ref.data(), n * 10, "one-hot labels"); }
template <typename L> static void loads(L load, u64 a, u64 b, u64 c, u64 d) { bytes f[4] = {any(16 + a * 784), labels(b), any(16 + c * 784), labels(d)}; dir s; for (int i = 0; i < 4; i++) s.put(names[i], f[i]);
  auto const &[xt, yt, xv, yv] = load(s.d); images_are(xt, f[0]); labels_are(yt, f[1]); images_are(xv, f[2]); labels_are(yv, f[3]); }
static auto M = [](std::string const &p) { return dataset::mnist::load_data(p); };
static auto F = [](std::string const &p) { return dataset::fashion_mnist::load_data(p); };
HARNESS(mnist_11) { loads(M, 1, 1, 1, 1); }
HARNESS(mnist_21) { loads(M, 2, 2, 1, 1); }
HARNESS(mnist_13) { loads(M, 1, 1, 3, 3); }
HARNESS(mnist_uneven) { loads(M, 2, 1, 1, 3); }
HARNESS(mnist_none) { loads(M, 0, 0, 0, 0); }
HARNESS(fashion_11) { loads(F, 1, 1, 1, 1); }
HARNESS(fashion_21) { loads(F, 2, 2, 1, 1); }
HARNESS(fashion_13) { loads(F, 1, 1, 3, 3); }
HARNESS(fashion_uneven) { loads(F, 2, 1, 1, 3); }
HARNESS(fashion_none) { loads(F, 0, 0, 0, 0); }
// damaged files: rejected, nothing outside the buffers is read or written (the engine and the sanitizers watch)
template <typename L> static void rejects(L load, int which, bytes const &damaged, bool there = true) { bytes f[4] = {any(16 + 784), any(8), any(16 + 784), any(8)}; f[1].push_back(4); f[3].push_back(9); dir s; for (int i = 0; i < 4; i++) if (i != which) s.put(names[i], f[i]); if (there) s.put(names[which], damaged); sym_abort(1); auto r = load(s.d); sym_assert(false, "a damaged file is rejected"); }
template <typename L> static void image_cut(L load, int which) { u64 n = std::vector<u64>{0, 1, 15, 17, 16 + 783, 16 + 785, 16 + 784 + 783}[sym_choose(0, 6)]; rejects(load, which, any(n)); }
template <typename L> static void label_cut(L load, int which) { u64 n = sym_choose(0, 7); rejects(load, which, any(n)); }
template <typename L> static void label_wrong(L load, int which) { bytes b = any(8); u64 k = sym_choose(0, 2); for (u64 i = 0; i < 3; i++) b.push_back(i == k ? 0 : 9); unsigned char w; sym_bytes(&w, 1); sym_assume(w >= 10); b[8 + k] = w; rejects(load, which, b); }
template <typename L> static void missing(L load) { rejects(load, sym_choose(0, 3), {}, false); }
HARNESS(mnist_image_cut) { image_cut(M, sym_choose(0, 1) * 2); }
HARNESS(mnist_label_cut) { label_cut(M, sym_choose(0, 1) * 2 + 1); }
HARNESS(mnist_label_wrong) { label_wrong(M, sym_choose(0, 1) * 2 + 1); }
HARNESS(mnist_missing) { missing(M); }
HARNESS(fashion_image_cut) { image_cut(F, sym_choose(0, 1) * 2); }
HARNESS(fashion_label_cut) { label_cut(F, sym_choose(0, 1) * 2 + 1); }
HARNESS(fashion_label_wrong) { label_wrong(F, sym_choose(0, 1) * 2 + 1); }
HARNESS(fashion_missing) { missing(F); }
