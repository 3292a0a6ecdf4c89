// The polymorphic family for one move flavour VT_MV.
#define VT_TPL template <bool VD>
#define VT_NAME PB
#define VT_SPEC PB<VT_MV, VD>
#define VT_TY 1
#define VT_BASES : DtorBase<VD>
#define VT_INIT(x) : w_(x), reg_(true)
#define VT_BASEPTR this
#define VT_DTOR            \
  ~PB() {                  \
    if (reg_) W().dtor(this, 1); \
    w_ = -999;             \
  }
#define VT_EXTRA                                       \
  bool reg_;                                           \
  explicit PB(NoReg, int x) : w_(x), reg_(false) {}    \
  void setv(int x) { w_ = x; }                         \
  virtual int id() const { return 1; }                 \
  virtual int get() const { return w_; }               \
  virtual void set(int x) { w_ = x; }                  \
  virtual const void* self() const { return this; }
#define VT_FINAL
#include "elem.inc"
#undef VT_FINAL
#undef VT_EXTRA
#undef VT_DTOR
#undef VT_BASEPTR
#undef VT_INIT
#undef VT_BASES
#undef VT_TY
#undef VT_SPEC
#undef VT_NAME

#define VT_P PB<VT_MV, VD>
#define VT_INIT(x) : VT_P(NoReg{}, x), w_(x)
#define VT_BASEPTR static_cast<VT_P*>(this)
#define VT_EXTRA                                             \
  void setv(int x) { w_ = x; this->VT_P::w_ = x; }           \
  int id() const override { return VT_TY; }                  \
  int get() const override { return w_ == this->VT_P::w_ ? w_ : -997; } \
  void set(int x) override { setv(x); }                      \
  const void* self() const override { return this; }

#define VT_NAME D1
#define VT_SPEC D1<VT_MV, VD>
#define VT_TY 2
#define VT_BASES : VT_P
#define VT_DTOR ~D1() { W().dtor(this, 2); w_ = -998; }
#if VT_MV == 0 || VT_MV == 2
#define VT_FINAL final
#else
#define VT_FINAL
#endif
#include "elem.inc"
#undef VT_FINAL
#undef VT_DTOR
#undef VT_BASES
#undef VT_TY
#undef VT_SPEC
#undef VT_NAME
#define VT_NAME D2
#define VT_SPEC D2<VT_MV, VD>
#define VT_TY 3
#define VT_BASES : Pad, VT_P
#define VT_DTOR ~D2() { W().dtor(this, 3); w_ = -998; }
#if VT_MV == 3
#define VT_FINAL final
#else
#define VT_FINAL
#endif
#include "elem.inc"
#undef VT_FINAL
#undef VT_DTOR
#undef VT_BASES
#undef VT_TY
#undef VT_SPEC
#undef VT_NAME
#define VT_NAME D3
#define VT_SPEC D3<VT_MV, VD>
#define VT_TY 4
#define VT_BASES : VPad, virtual VT_P
#define VT_DTOR ~D3() { W().dtor(this, 4); w_ = -998; }
#if VT_MV == 1 || VT_MV == 4
#define VT_FINAL final
#else
#define VT_FINAL
#endif
#include "elem.inc"
#undef VT_FINAL
#undef VT_DTOR
#undef VT_BASES
#undef VT_TY
#undef VT_SPEC
#undef VT_NAME
#undef VT_EXTRA
#undef VT_BASEPTR
#undef VT_INIT
#undef VT_P
#undef VT_TPL
