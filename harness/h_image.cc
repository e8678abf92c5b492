// C21: images shared by several threads. Dynamic targets, like applications.
#include <string.h>

#include <memory>
#include <utility>

#include "common.h"
#include "cpu_model.h"
#include "hwy/contrib/image/image.h"
#include "hwy/per_target.h"
#include "hwy/targets.h"

using namespace sim;

namespace {

constexpr size_t kMaxX = 300, kMaxY = 10, kMaxThreads = 6;

size_t RoundUp(size_t x, size_t to) { return (x + to - 1) / to * to; }

// What vector code on a row does: stores (or loads) of whole vectors.
SIM_NOINST void StoreVec(uint8_t* p, size_t n, uint8_t value) {
  PlainWrite(p, n);
  memset(p, value, n);
}
SIM_NOINST uint8_t LoadVec(const uint8_t* p, size_t n) {
  PlainRead(p, n);
  uint8_t x = 0;
  for (size_t i = 0; i < n; ++i) x = static_cast<uint8_t>(x ^ p[i]);
  return x;
}

int64_t g_detected;
void OnAbort() {
  SIM_CHECK(AllocFailures() != 0, "abort", "aborted although no allocation failed");
  Probe("reported by Abort");
  FinishOk();
}
// Changes what VectorBytes returns, before or between creating images.
void ChangeTargets() {
  switch (Gen(4)) {
    case 0: break;
    case 1: hwy::DisableTargets(0); break;
    case 2: hwy::DisableTargets((HWY_AVX3 << 1) - 1); break;   // AVX2 remains
    case 3: hwy::DisableTargets((HWY_AVX2 << 1) - 1); break;   // SSE remains
  }
}
void Setup() {
  EnableFault(fLateStart, 400000);
  EnableFault(fStall, 800000);
  SetStepBudget(400000, 4000000);
  g_detected = ChooseCpuModel();
  (void)g_detected;
}
size_t PickX() {
  switch (Gen(4)) {
    case 0: return 1 + static_cast<size_t>(Gen(8));
    case 1: return 1 + static_cast<size_t>(Gen(70));
    case 2: return static_cast<size_t>(8 * (1 + Gen(32)) + Gen(3)) - 1;
    default: return 1 + static_cast<size_t>(Gen(kMaxX));
  }
}

// One plane under test, independent of its element type.
struct PlaneView {
  uint8_t* rows[kMaxY];
  size_t xbytes, ysize, item;
};
struct Work {
  PlaneView* planes;
  size_t num_planes, threads, vec;
  uint8_t tag[3][kMaxY];
  int owner[3][kMaxY];
};
struct Worker {
  Work* w;
  int id;
};
void ProcessRows(void* arg) {
  const Worker* k = static_cast<const Worker*>(arg);
  const Work* w = k->w;
  uint8_t sink = 0;
  for (size_t y = 0; y < kMaxY; ++y)
    for (size_t c = 0; c < w->num_planes; ++c) {
      const PlaneView& p = w->planes[c];
      if (y >= p.ysize || w->owner[c][y] != k->id) continue;
      for (size_t x = 0; x < p.xbytes; x += w->vec) {
        StoreVec(p.rows[y] + x, w->vec, w->tag[c][y]);
        if ((x / w->vec) % 3 == 0) Yield();
      }
      // Unaligned loads up to the last valid element, as convolutions do.
      sink = static_cast<uint8_t>(sink ^ LoadVec(p.rows[y] + p.xbytes - p.item, w->vec));
    }
  (void)sink;
}

void RunRows(Work* w) {
  Worker workers[kMaxThreads];
  int tids[kMaxThreads];
  for (size_t i = 0; i < w->threads; ++i) {
    workers[i] = Worker{w, static_cast<int>(i)};
    if (i) tids[i] = Spawn(&ProcessRows, &workers[i]);
  }
  ProcessRows(&workers[0]);
  for (size_t i = 1; i < w->threads; ++i) Join(tids[i]);
  for (size_t c = 0; c < w->num_planes; ++c)
    for (size_t y = 0; y < w->planes[c].ysize; ++y) {
      const PlaneView& p = w->planes[c];
      PlainRead(p.rows[y], p.xbytes);
      for (size_t x = 0; x < p.xbytes; ++x)
        SIM_CHECK(p.rows[y][x] == w->tag[c][y], "row-overwritten", "plane %zu row %zu byte %zu of %zu is %u, not %u", c, y, x, p.xbytes, p.rows[y][x],
                  w->tag[c][y]);
    }
}
template <typename T>
void View(const hwy::Image<T>& image, size_t xsize, size_t ysize, PlaneView* v) {
  SIM_CHECK(image.xsize() == xsize && image.ysize() == ysize, "wrong-size", "image of %zu x %zu reports %zu x %zu", xsize, ysize, image.xsize(),
            image.ysize());
  const size_t vec = hwy::ImageBase::VectorSize();
  SIM_CHECK(image.bytes_per_row() % vec == 0 && image.PixelsPerRow() == static_cast<intptr_t>(image.bytes_per_row() / sizeof(T)), "wrong-size",
            "image has %zu bytes and %td pixels per row", image.bytes_per_row(), image.PixelsPerRow());
  v->xbytes = xsize * sizeof(T);
  v->ysize = ysize;
  v->item = sizeof(T);
  for (size_t y = 0; y < ysize; ++y) {
    v->rows[y] = reinterpret_cast<uint8_t*>(image.MutableRow(y));
    const bool same = image.ConstRow(y) == image.MutableRow(y) && v->rows[y] == image.bytes() + y * image.bytes_per_row();
    SIM_CHECK(same, "wrong-row", "row %zu has different addresses", y);
    uintptr_t addr = reinterpret_cast<uintptr_t>(v->rows[y]);
    asm volatile("" : "+r"(addr));  // the compiler was told that rows are aligned
    SIM_CHECK(addr % vec == 0 && addr % 64 == 0, "misaligned",
              "row %zu of an image with %zu bytes per row is at %p", y, image.bytes_per_row(), static_cast<const void*>(v->rows[y]));
  }
}
void AssignOwners(Work* w) {
  w->threads = 1 + static_cast<size_t>(Gen(kMaxThreads));
  const uint64_t how = Gen(3);
  Rng rng(Gen(1u << 16));
  for (size_t c = 0; c < 3; ++c)
    for (size_t y = 0; y < kMaxY; ++y) {
      w->tag[c][y] = static_cast<uint8_t>(1 + rng.Below(255));
      const size_t i = how == 0 ? y : how == 1 ? c : static_cast<size_t>(rng.Below(100));
      w->owner[c][y] = static_cast<int>(i % w->threads);
    }
}

template <typename T>
void Rows() {
  size_t xsize = PickX(), ysize = 1 + static_cast<size_t>(Gen(kMaxY));
  ChangeTargets();
  if (Gen(3) == 2) {  // images for the old targets
    const hwy::Image<T> image(xsize, ysize);
    ChangeTargets();
  }
  const size_t vec = hwy::VectorBytes();
  SIM_CHECK(hwy::ImageBase::VectorSize() == vec, "wrong-size", "VectorSize() = %zu, VectorBytes() = %zu", hwy::ImageBase::VectorSize(), vec);
  PlaneView views[3];
  Work w;
  w.planes = views;
  w.vec = vec;
  const uint64_t mark = HeapMark();
  {
    switch (Gen(5)) {
      case 0: {
        const hwy::Image<T> image(xsize, ysize);
        View(image, xsize, ysize, &views[0]);
        w.num_planes = 1;
        AssignOwners(&w);
        RunRows(&w);
        break;
      }
      case 1: {
        hwy::Image3<T> image(xsize, ysize);
        hwy::Image3<T> other(std::move(image));
        if (GenBool()) {
          hwy::Image3<T> third;
          third.Swap(other);
          SIM_CHECK(other.xsize() == 0 && other.ysize() == 0, "wrong-size", "swap left %zu x %zu", other.xsize(), other.ysize());
          other = std::move(third);
        }
        SIM_CHECK(other.bytes_per_row() == other.Plane(0).bytes_per_row() && other.PixelsPerRow() == other.Plane(0).PixelsPerRow(), "wrong-size",
                  "Image3 has %zu bytes and %td pixels per row", other.bytes_per_row(), other.PixelsPerRow());
        if (GenBool()) {
          xsize = 1 + static_cast<size_t>(Gen(xsize));
          ysize = 1 + static_cast<size_t>(Gen(ysize));
          other.ShrinkTo(xsize, ysize);
        }
        SIM_CHECK(other.xsize() == xsize && other.ysize() == ysize, "wrong-size", "Image3 of %zu x %zu reports %zu x %zu", xsize, ysize, other.xsize(),
                  other.ysize());
        for (size_t c = 0; c < 3; ++c) {
          View(other.Plane(c), xsize, ysize, &views[c]);
          for (size_t y = 0; y < ysize; ++y)
            SIM_CHECK(reinterpret_cast<uint8_t*>(other.MutablePlaneRow(c, y)) == views[c].rows[y] &&
                          reinterpret_cast<const uint8_t*>(other.ConstPlaneRow(c, y)) == views[c].rows[y],
                      "wrong-row", "plane %zu row %zu has different addresses", c, y);
        }
        w.num_planes = 3;
        AssignOwners(&w);
        RunRows(&w);
        break;
      }
      case 2: {  // memory of the caller
        const size_t bpr = GenBool() ? hwy::ImageBase::BytesPerRow(xsize, sizeof(T)) : RoundUp(xsize * sizeof(T) + 64, 64);
        // Also memory that Highway did not allocate, with nothing before it.
        struct Free {
          void operator()(uint8_t* p) const { free(p); }
        };
        auto own = hwy::AllocateAligned<uint8_t>(bpr * ysize);
        std::unique_ptr<uint8_t, Free> foreign(static_cast<uint8_t*>(aligned_alloc(128, RoundUp(bpr * ysize, 128))));
        SIM_CHECK(own.get() != nullptr && foreign.get() != nullptr, "null", "allocation failed");
        uint8_t* const mem = GenBool() ? own.get() : foreign.get();
        {
          hwy::Image<T> image(xsize, ysize, bpr, mem);
          hwy::Image<T> moved;
          if (GenBool()) {
            moved = std::move(image);
          } else {
            moved.Swap(image);
          }
          View(moved, xsize, ysize, &views[0]);
          SIM_CHECK(moved.bytes() == mem && moved.bytes_per_row() == bpr, "wrong-row", "image does not use the given memory");
          w.num_planes = 1;
          AssignOwners(&w);
          RunRows(&w);
        }
        PlainRead(mem, bpr * ysize);  // still the caller's
        break;
      }
      case 3: {  // three planes made from separately allocated ones
        // Same size, but one can be part of a larger one or in the caller's memory.
        hwy::Image<T> a(xsize + static_cast<size_t>(Gen(2) * Gen(200)), ysize), b(xsize, ysize), c(xsize, ysize);
        a.ShrinkTo(xsize, ysize);
        hwy::AlignedFreeUniquePtr<uint8_t[]> mem;
        if (GenBool()) {
          const size_t bpr = RoundUp(xsize * sizeof(T) + 64, 64);
          mem = hwy::AllocateAligned<uint8_t>(bpr * ysize);
          SIM_CHECK(mem.get() != nullptr, "null", "allocation failed");
          b = hwy::Image<T>(xsize, ysize, bpr, mem.get());
        }
        const uint8_t* bytes[3] = {a.bytes(), b.bytes(), c.bytes()};
        const size_t strides[3] = {a.bytes_per_row(), b.bytes_per_row(), c.bytes_per_row()};
        hwy::Image3<T> image(std::move(a), std::move(b), std::move(c));
        const uint64_t how = Gen(3);
        if (how) {
          hwy::Image3<T> other(xsize, ysize);
          if (how == 1) {
            other.Swap(image);
            image.Swap(other);
          } else {
            other = std::move(image);
            image = std::move(other);
          }
        }
        for (size_t k = 0; k < 3; ++k) {
          SIM_CHECK(image.Plane(k).bytes() == bytes[k] && image.Plane(k).bytes_per_row() == strides[k], "wrong-row", "plane %zu has a different address or stride",
                    k);
        }
        for (size_t k = 0; k < 3; ++k) {
          View(image.Plane(k), xsize, ysize, &views[k]);
          for (size_t y = 0; y < ysize; ++y)
            SIM_CHECK(reinterpret_cast<uint8_t*>(image.MutablePlaneRow(k, y)) == views[k].rows[y] &&
                          reinterpret_cast<const uint8_t*>(image.ConstPlaneRow(k, y)) == views[k].rows[y],
                      "wrong-row", "plane %zu row %zu has different addresses", k, y);
        }
        w.num_planes = 3;
        AssignOwners(&w);
        RunRows(&w);
        break;
      }
      case 4: {  // shrunk: rows must not move
        hwy::Image<T> image(xsize, ysize);
        View(image, xsize, ysize, &views[0]);
        const PlaneView before = views[0];
        w.num_planes = 1;
        AssignOwners(&w);
        RunRows(&w);
        const size_t x2 = 1 + static_cast<size_t>(Gen(xsize)), y2 = 1 + static_cast<size_t>(Gen(ysize));
        image.ShrinkTo(x2, y2);
        View(image, x2, y2, &views[0]);
        for (size_t y = 0; y < y2; ++y) {
          SIM_CHECK(views[0].rows[y] == before.rows[y] && views[0].rows[y][x2 * sizeof(T) - 1] == w.tag[0][y], "row-overwritten",
                    "ShrinkTo changed row %zu", y);
        }
        RunRows(&w);
        break;
      }
    }
  }
  const void* addr;
  size_t size;
  SIM_CHECK(HeapLiveSince(mark, &addr, &size) == 0, "leak", "%zu bytes of an image leaked", size);
}

// ------------------------------------------------ tiles
struct Tiles {
  hwy::Image<uint32_t>* image;
  hwy::Image3<uint32_t>* image3;
  hwy::Rect all;
  size_t ax, ay, aw, ah;  // what `all` must be
  size_t tx, ty, nx, ny, next[kMaxThreads + 1];
};
struct TileWorker {
  Tiles* t;
  size_t begin, end;
};
void ProcessTiles(void* arg) {
  const TileWorker* k = static_cast<const TileWorker*>(arg);
  Tiles* t = k->t;
  for (size_t i = k->begin; i < k->end; ++i) {
    const size_t bx = (i % t->nx) * t->tx, by = (i / t->nx) * t->ty;
    const hwy::Rect r = t->all.Subrect(bx, by, t->tx, t->ty);
    const size_t want_x = bx >= t->aw ? 0 : HWY_MIN(t->tx, t->aw - bx), want_y = by >= t->ah ? 0 : HWY_MIN(t->ty, t->ah - by);
    SIM_CHECK(r.x0() == t->ax + bx && r.y0() == t->ay + by && r.xsize() == want_x && r.ysize() == want_y, "wrong-tile",
              "tile %zu at (%zu, %zu) is %zu x %zu instead of %zu x %zu", i, r.x0(), r.y0(), r.xsize(), r.ysize(), want_x, want_y);
    if (want_x == 0) continue;
    for (size_t y = 0; y < r.ysize(); ++y) {
      uint32_t* row = t->image ? r.MutableRow(t->image, y) : r.MutablePlaneRow(t->image3, i % 3, y);
      const uint32_t* crow = t->image ? r.ConstRow(t->image, y) : r.ConstPlaneRow(*t->image3, i % 3, y);
      SIM_CHECK(row == crow, "wrong-row", "tile %zu row %zu has different addresses", i, y);
      for (size_t x = 0; x < r.xsize(); ++x) row[x] += static_cast<uint32_t>(1 + i);
      if (y % 2 == 0) Yield();
    }
  }
}

// ------------------------------------------------ mirrored borders
struct Mirrors {
  const hwy::ImageF* in;
  const hwy::ImageF* out;
  int64_t radius;
};
struct MirrorWorker {
  Mirrors* m;
  size_t begin, end;
};
void ProcessMirrors(void* arg) {
  const MirrorWorker* k = static_cast<const MirrorWorker*>(arg);
  const Mirrors* m = k->m;
  const hwy::WrapRowMirror wrap(*m->in, m->in->ysize());
  const hwy::WrapMirror wrap_x;
  const int64_t stride = static_cast<int64_t>(m->in->PixelsPerRow());
  for (size_t y = k->begin; y < k->end; ++y) {
    float* out = m->out->MutableRow(y);
    for (size_t x = 0; x < m->in->xsize(); ++x) out[x] = 0.0f;
    for (int64_t dy = -m->radius; dy <= m->radius; ++dy) {
      const float* in = wrap(m->in->ConstRow(y) + dy * stride, stride);
      for (size_t x = 0; x < m->in->xsize(); ++x) out[x] += in[wrap_x(static_cast<int64_t>(x) + dy, m->in->xsize())];
    }
    Yield();
  }
}

// ------------------------------------------------ create and destroy
struct Slot {
  hwy::ImageF image;
  uint8_t tag = 0;
  const uint8_t* bytes = nullptr;
  size_t stride = 0, xsize = 0, ysize = 0;
};
struct Creator {
  uint32_t seed, ops;
};
SIM_NOINST void SwapExpected(Slot* a, Slot* b) {
  std::swap(a->tag, b->tag);
  std::swap(a->bytes, b->bytes);
  std::swap(a->stride, b->stride);
  std::swap(a->xsize, b->xsize);
  std::swap(a->ysize, b->ysize);
}
void CreateMain(void* arg) {
  const Creator* c = static_cast<const Creator*>(arg);
  Slot slots[3];
  for (uint32_t i = 0; i < c->ops; ++i) {
    Rng rng(c->seed * 131u + i);
    const size_t a = static_cast<size_t>(rng.Below(3)), b = static_cast<size_t>(rng.Below(3));
    switch (rng.Below(4)) {
      case 0:
      case 1: {
        size_t xsize = static_cast<size_t>(rng.Below(60)), ysize = static_cast<size_t>(rng.Below(5));
        Slot& s = slots[a];
        AllocFaults(true);
        s.image = hwy::ImageF(xsize, ysize);
        AllocFaults(false);
        if (xsize >= 3 && ysize >= 2 && rng.Below(2)) {  // often equal sizes, but different strides
          s.image.ShrinkTo(3, 2);
          xsize = 3;
          ysize = 2;
        }
        s.tag = static_cast<uint8_t>(1 + rng.Below(200));
        s.bytes = s.image.bytes();
        s.stride = s.image.bytes_per_row();
        s.xsize = xsize;
        s.ysize = ysize;
        for (size_t y = 0; y < ysize && xsize; ++y)
          for (size_t x = 0; x < xsize * 4; x += 16) StoreVec(reinterpret_cast<uint8_t*>(s.image.MutableRow(y)) + x, 16, static_cast<uint8_t>(s.tag + y));
        break;
      }
      case 2:
        slots[a].image.Swap(slots[b].image);
        SwapExpected(&slots[a], &slots[b]);
        break;
      default:
        if (a != b) {
          slots[a].image = std::move(slots[b].image);
          slots[b].image = hwy::ImageF();
          SwapExpected(&slots[a], &slots[b]);
          slots[b].bytes = nullptr;
          slots[b].stride = slots[b].xsize = slots[b].ysize = 0;
        }
        break;
    }
    Yield();
    for (Slot& s : slots) {
      SIM_CHECK(s.image.xsize() == s.xsize && s.image.ysize() == s.ysize && s.image.bytes() == s.bytes && s.image.bytes_per_row() == s.stride, "wrong-size",
                "image is %zu x %zu with stride %zu instead of %zu x %zu with %zu", s.image.xsize(), s.image.ysize(), s.image.bytes_per_row(), s.xsize, s.ysize,
                s.stride);
      if (s.xsize == 0) continue;
      for (size_t y = 0; y < s.image.ysize(); ++y) {
        const uint8_t* row = reinterpret_cast<const uint8_t*>(s.image.ConstRow(y));
        for (size_t x = 0; x < s.image.xsize() * 4; ++x)
          SIM_CHECK(row[x] == static_cast<uint8_t>(s.tag + y), "row-overwritten", "row %zu byte %zu is %u, not %u", y, x, row[x],
                    static_cast<uint8_t>(s.tag + y));
      }
    }
  }
}

}  // namespace

// Threads store whole vectors to their rows, including padding.
SIM_SCENARIO(C21, rows, 4) {
  Setup();
  SetAbortHook(&OnAbort);
  switch (Gen(4)) {
    case 0: Rows<uint8_t>(); break;
    case 1: Rows<uint16_t>(); break;
    case 2: Rows<float>(); break;
    case 3: Rows<double>(); break;
  }
}

// Threads process the tiles of an image, or of a part of it.
SIM_SCENARIO(C21, tiles, 2) {
  Setup();
  SetAbortHook(&OnAbort);
  const size_t xsize = 1 + static_cast<size_t>(Gen(40)), ysize = 1 + static_cast<size_t>(Gen(kMaxY));
  hwy::Image<uint32_t> image(xsize, ysize);
  hwy::Image3<uint32_t> image3(xsize, ysize);
  const bool three = GenBool();
  for (size_t c = 0; c < 3; ++c)
    for (size_t y = 0; y < ysize; ++y) {
      memset(image3.MutablePlaneRow(c, y), 0, xsize * 4);
      if (c == 0) memset(image.MutableRow(y), 0, xsize * 4);
    }
  Tiles t;
  t.image = three ? nullptr : &image;
  t.image3 = &image3;
  t.ax = t.ay = 0;
  t.aw = xsize;
  t.ah = ysize;
  if (GenBool()) {
    t.all = three ? hwy::Rect(image3) : hwy::Rect(image);
  } else {
    t.ax = static_cast<size_t>(Gen(xsize));
    t.ay = static_cast<size_t>(Gen(ysize));
    if (GenBool()) {
      t.aw = 1 + static_cast<size_t>(Gen(xsize - t.ax));
      t.ah = 1 + static_cast<size_t>(Gen(ysize - t.ay));
      t.all = hwy::Rect(t.ax, t.ay, t.aw, t.ah);
    } else {
      const size_t w = 1 + static_cast<size_t>(Gen(50)), h = 1 + static_cast<size_t>(Gen(20));
      t.aw = w < xsize - t.ax ? w : xsize - t.ax;
      t.ah = h < ysize - t.ay ? h : ysize - t.ay;
      t.all = hwy::Rect(t.ax, t.ay, w, h, xsize, ysize);
    }
  }
  SIM_CHECK(t.all.x0() == t.ax && t.all.y0() == t.ay && t.all.xsize() == t.aw && t.all.ysize() == t.ah, "wrong-tile",
            "Rect is (%zu, %zu) %zu x %zu instead of (%zu, %zu) %zu x %zu", t.all.x0(), t.all.y0(), t.all.xsize(), t.all.ysize(), t.ax, t.ay, t.aw, t.ah);
  SIM_CHECK(t.all.IsInside(image) && t.all.IsInside(image3), "wrong-tile", "Rect is not inside the image");
  SIM_CHECK(!hwy::Rect(t.ax, t.ay, xsize - t.ax + 1, t.ah).IsInside(image) && !hwy::Rect(t.ax, t.ay, t.aw, ysize - t.ay + 1).IsInside(image3), "wrong-tile",
            "Rect larger than the image is inside");
  SIM_CHECK(SameSize(image, image3) && SameSize(t.all, hwy::Rect(0, 0, t.aw, t.ah)) && !SameSize(t.all, hwy::Rect(0, 0, t.aw, t.ah + 1)) &&
                !SameSize(t.all, hwy::Rect(0, 0, t.aw + 1, t.ah)),
            "wrong-tile", "SameSize is wrong for %zu x %zu", t.aw, t.ah);
  const hwy::Rect none;
  SIM_CHECK(none.x0() == 0 && none.y0() == 0 && none.xsize() == 0 && none.ysize() == 0, "wrong-tile", "default Rect is not empty");
  t.tx = 1 + static_cast<size_t>(Gen(20));
  t.ty = 1 + static_cast<size_t>(Gen(6));
  // Sometimes more tiles than needed; the excess ones are empty.
  t.nx = (t.aw + t.tx - 1) / t.tx + static_cast<size_t>(Gen(3));
  t.ny = (t.ah + t.ty - 1) / t.ty + static_cast<size_t>(Gen(3));
  const size_t threads = 1 + static_cast<size_t>(Gen(kMaxThreads)), total = t.nx * t.ny;
  TileWorker workers[kMaxThreads];
  int tids[kMaxThreads];
  for (size_t i = 0; i < threads; ++i) {
    workers[i] = TileWorker{&t, total * i / threads, total * (i + 1) / threads};
    if (i) tids[i] = Spawn(&ProcessTiles, &workers[i]);
  }
  ProcessTiles(&workers[0]);
  for (size_t i = 1; i < threads; ++i) Join(tids[i]);
  for (size_t c = 0; c < (three ? 3u : 1u); ++c)
    for (size_t y = 0; y < ysize; ++y)
      for (size_t x = 0; x < xsize; ++x) {
        uint32_t want = 0;
        if (x >= t.ax && x < t.ax + t.aw && y >= t.ay && y < t.ay + t.ah) {
          const size_t i = (y - t.ay) / t.ty * t.nx + (x - t.ax) / t.tx;
          if (!three || i % 3 == c) want = static_cast<uint32_t>(1 + i);
        }
        const uint32_t got = three ? image3.ConstPlaneRow(c, y)[x] : image.ConstRow(y)[x];
        SIM_CHECK(got == want, "wrong-tile", "pixel (%zu, %zu) of plane %zu is %u, not %u (tiles of %zu x %zu)", x, y, c, got, want, t.tx, t.ty);
      }
}

// Threads read mirrored neighbours of the rows they compute.
SIM_SCENARIO(C21, mirror, 1) {
  Setup();
  SetAbortHook(&OnAbort);
  const size_t xsize = 4 + static_cast<size_t>(Gen(30)), ysize = 4 + static_cast<size_t>(Gen(kMaxY - 3));
  hwy::ImageF in(xsize, ysize), out(xsize, ysize);
  for (size_t y = 0; y < ysize; ++y)
    for (size_t x = 0; x < xsize; ++x) in.MutableRow(y)[x] = static_cast<float>(y * 100 + x);
  Mirrors m = {&in, &out, 1 + static_cast<int64_t>(Gen(3))};
  const size_t threads = 1 + static_cast<size_t>(Gen(4));
  MirrorWorker workers[4];
  int tids[4];
  for (size_t i = 0; i < threads; ++i) {
    workers[i] = MirrorWorker{&m, ysize * i / threads, ysize * (i + 1) / threads};
    if (i) tids[i] = Spawn(&ProcessMirrors, &workers[i]);
  }
  ProcessMirrors(&workers[0]);
  for (size_t i = 1; i < threads; ++i) Join(tids[i]);
  const auto mirror = [](int64_t x, int64_t n) { return x < 0 ? -x - 1 : x >= n ? 2 * n - 1 - x : x; };
  for (size_t y = 0; y < ysize; ++y)
    for (size_t x = 0; x < xsize; ++x) {
      float want = 0;
      for (int64_t d = -m.radius; d <= m.radius; ++d)
        want += static_cast<float>(mirror(static_cast<int64_t>(y) + d, static_cast<int64_t>(ysize)) * 100 +
                                   mirror(static_cast<int64_t>(x) + d, static_cast<int64_t>(xsize)));
      SIM_CHECK(out.ConstRow(y)[x] == want, "wrong-mirror", "pixel (%zu, %zu) of %zu x %zu is %f, not %f", x, y, xsize, ysize,
                static_cast<double>(out.ConstRow(y)[x]), static_cast<double>(want));
    }
}

// Images with more than 2^16 columns, rows, or 2^32 bytes.
namespace {
size_t NearPow2(uint32_t bits) { return (size_t{1} << bits) - 20 + static_cast<size_t>(Gen(40)); }

template <typename T>
void WrappedLarge() {
  const size_t vec = hwy::VectorBytes();
  const size_t xsize = GenBool() ? NearPow2(static_cast<uint32_t>(GenRange(5, 20))) : 1 + static_cast<size_t>(Gen(300));
  const size_t ysize = NearPow2(static_cast<uint32_t>(GenRange(5, 21)));
  size_t bpr = hwy::ImageBase::BytesPerRow(xsize, sizeof(T));
  SIM_CHECK(bpr % vec == 0 && bpr >= xsize * sizeof(T), "wrong-size", "BytesPerRow(%zu, %zu) = %zu", xsize, sizeof(T), bpr);
  if (GenBool()) bpr += 128 * static_cast<size_t>(Gen(100));
  // Only addresses are computed, no memory is behind them.
  const uintptr_t base = 0x500000000000ull;
  if (bpr * ysize >> 32) Probe("image of more than 4 GiB");
  const hwy::Image<T> image(xsize, ysize, bpr, reinterpret_cast<void*>(base));
  SIM_CHECK(image.xsize() == xsize && image.ysize() == ysize && image.bytes_per_row() == bpr && image.PixelsPerRow() == static_cast<intptr_t>(bpr / sizeof(T)),
            "wrong-size", "image of %zu x %zu (%zu bytes per row) reports %zu x %zu (%zu)", xsize, ysize, bpr, image.xsize(), image.ysize(), image.bytes_per_row());
  for (int i = 0; i < 8; ++i) {
    const size_t y = i == 0 ? ysize - 1 : static_cast<size_t>(Gen(ysize)), x = i == 1 ? xsize - 1 : static_cast<size_t>(Gen(xsize));
    uintptr_t row = reinterpret_cast<uintptr_t>(GenBool() ? image.ConstRow(y) : image.MutableRow(y));
    asm volatile("" : "+r"(row));
    SIM_CHECK(row == base + y * bpr, "wrong-row", "row %zu of %zu (%zu bytes each) is at offset %zd", y, ysize, bpr, static_cast<ssize_t>(row - base));
    hwy::Rect rect(x, y, 1 + static_cast<size_t>(Gen(xsize)), 1 + static_cast<size_t>(Gen(ysize)), xsize, ysize);
    const size_t dy = static_cast<size_t>(Gen(rect.ysize()));
    uintptr_t pixel = reinterpret_cast<uintptr_t>(rect.ConstRow(&image, dy));
    asm volatile("" : "+r"(pixel));
    SIM_CHECK(pixel == base + (y + dy) * bpr + x * sizeof(T), "wrong-row", "row %zu of the tile at (%zu, %zu) is at offset %zd (%zu bytes per row)", dy, x, y,
              static_cast<ssize_t>(pixel - base), bpr);
    SIM_CHECK(rect.IsInside(image), "wrong-size", "tile at (%zu, %zu) of %zu x %zu is not inside %zu x %zu", x, y, rect.xsize(), rect.ysize(), xsize, ysize);
  }
}

template <typename T>
struct LargeWork {
  hwy::Image<T>* image;
  size_t rows[16];
  size_t num_rows, xsize;
};
template <typename T>
struct LargeWorker {
  LargeWork<T>* w;
  size_t begin, end;
};
template <typename T>
void LargeMain(void* arg) {
  const LargeWorker<T>& k = *static_cast<LargeWorker<T>*>(arg);
  for (size_t i = k.begin; i < k.end; ++i) {
    const size_t y = k.w->rows[i];
    T* row = k.w->image->MutableRow(y);
    memset(row, static_cast<int>(1 + i), sizeof(T));
    Yield();
    memset(row + k.w->xsize - 1, static_cast<int>(1 + i), sizeof(T));
  }
}
template <typename T>
void Large() {
  const bool wide = GenBool();
  const size_t xsize = wide ? NearPow2(16) + (Gen(3) << 16) : 1 + static_cast<size_t>(Gen(40));
  const size_t ysize = wide ? 1 + static_cast<size_t>(Gen(4)) : NearPow2(16);
  hwy::Image<T> image(xsize, ysize);
  SIM_CHECK(image.xsize() == xsize && image.ysize() == ysize, "wrong-size", "image of %zu x %zu reports %zu x %zu", xsize, ysize, image.xsize(), image.ysize());
  LargeWork<T> w;
  w.image = &image;
  w.xsize = xsize;
  w.num_rows = 0;
  for (size_t i = 0; i < 16; ++i) {  // distinct rows
    const size_t y = i < 2 ? (i < ysize ? i : 0) : i == 2 ? ysize - 1 : i == 3 && ysize > 65536 ? 65536 : static_cast<size_t>(Gen(ysize));
    bool seen = false;
    for (size_t j = 0; j < w.num_rows; ++j) seen = seen || w.rows[j] == y;
    if (!seen) w.rows[w.num_rows++] = y;
  }
  LargeWorker<T> workers[3];
  int tids[3];
  const size_t threads = 1 + static_cast<size_t>(Gen(3));
  for (size_t i = 0; i < threads; ++i) {
    workers[i] = LargeWorker<T>{&w, w.num_rows * i / threads, w.num_rows * (i + 1) / threads};
    if (i) tids[i] = Spawn(&LargeMain<T>, &workers[i]);
  }
  LargeMain<T>(&workers[0]);
  for (size_t i = 1; i < threads; ++i) Join(tids[i]);
  for (size_t i = 0; i < w.num_rows; ++i) {
    const unsigned char* row = reinterpret_cast<const unsigned char*>(image.ConstRow(w.rows[i]));
    SIM_CHECK(row[0] == 1 + i && row[xsize * sizeof(T) - 1] == 1 + i, "row-overwritten", "row %zu of %zu x %zu holds %u and %u, not %zu", w.rows[i], xsize,
              ysize, row[0], row[xsize * sizeof(T) - 1], 1 + i);
  }
  Probe("more than 65500 rows or columns");
}
}  // namespace

SIM_SCENARIO(C21, large, 1) {
  Setup();
  SetAbortHook(&OnAbort);
  ChangeTargets();
  if (Gen(4) != 3) {
    switch (Gen(3)) {
      case 0: WrappedLarge<uint8_t>(); break;
      case 1: WrappedLarge<uint16_t>(); break;
      case 2: WrappedLarge<double>(); break;
    }
  } else if (GenBool()) {
    Large<uint8_t>();
  } else {
    Large<float>();
  }
}

// Threads create, move, swap and destroy images while memory runs out.
SIM_SCENARIO(C21, create, 2) {
  Setup();
  SetAbortHook(&OnAbort);
  if (Gen(3) == 2) EnableFault(fAllocFail, 100000);
  ChangeTargets();
  (void)hwy::VectorBytes();
  const uint64_t mark = HeapMark();
  const size_t threads = 1 + static_cast<size_t>(Gen(4));
  Creator creators[4];
  int tids[4];
  for (size_t i = 0; i < threads; ++i) {
    creators[i] = Creator{static_cast<uint32_t>(Gen(1u << 16)), 1 + static_cast<uint32_t>(Gen(12))};
    if (i) tids[i] = Spawn(&CreateMain, &creators[i]);
  }
  CreateMain(&creators[0]);
  for (size_t i = 1; i < threads; ++i) Join(tids[i]);
  const void* addr;
  size_t size;
  SIM_CHECK(HeapLiveSince(mark, &addr, &size) == 0, "leak", "%zu bytes of an image leaked", size);
}
