// One instrumented element for the flavours: VT_FN name, VT_FHEAD class head after the name, VT_FMV as VT_MV,
// VT_FNX 1: moves are noexcept, VT_FASSIGN 0 none, 1 ordinary, 2 operators returning void, VT_FPAD further members.
struct VT_FHEAD {
  static constexpr int mv = VT_FMV;
  int w_;
  VT_FPAD
  VT_FN() : w_(1) { W().ctor_begin(nullptr); fin(HDef, nullptr, 1); }
  VT_FN(int x) : w_(x) { W().ctor_begin(nullptr); fin(HArg, nullptr, x); }
  VT_FN(std::initializer_list<int> l) : w_(*l.begin()) { W().ctor_begin(nullptr); fin(HList, nullptr, *l.begin()); }
  VT_FN(const VT_FN& o) : w_(o.w_) { W().ctor_begin(&o); fin(HCopy, &o, o.w_); }
  VT_FN(VT_FN& o) : w_(o.w_) { W().ctor_begin(&o); fin(HNonConst, &o, o.w_); }
#if VT_FASSIGN == 0
  VT_FN& operator=(const VT_FN&) = delete;
#elif VT_FASSIGN == 1
  VT_FN& operator=(const VT_FN& o) { W().assign(this, HCopy, &o); w_ = o.w_; return *this; }
  VT_FN& operator=(VT_FN& o) { W().assign(this, HNonConst, &o); w_ = o.w_; return *this; }
  VT_FN& operator=(int x) { W().assign(this, HArg, nullptr); w_ = x; return *this; }
#else
  void operator=(const VT_FN& o) { W().assign(this, HCopy, &o); w_ = o.w_; }
  void operator=(VT_FN& o) { W().assign(this, HNonConst, &o); w_ = o.w_; }
  void operator=(int x) { W().assign(this, HArg, nullptr); w_ = x; }
#endif
#if VT_FMV != 2
  VT_FN(VT_FN&& o) noexcept(VT_FNX) : w_(o.w_) {
    W().ctor_begin(&o);
    int x = o.w_;
    if (VT_FMV == 0) o.w_ = MF;
    fin(HMove, &o, x);
  }
#if VT_FASSIGN == 1
  VT_FN& operator=(VT_FN&& o) noexcept(VT_FNX) { W().assign(this, HMove, &o); int x = o.w_; if (VT_FMV == 0) o.w_ = MF; w_ = x; return *this; }
#elif VT_FASSIGN == 2
  void operator=(VT_FN&& o) noexcept(VT_FNX) { W().assign(this, HMove, &o); int x = o.w_; if (VT_FMV == 0) o.w_ = MF; w_ = x; }
#endif
#endif
  VT_FVIRT ~VT_FN() { W().dtor(this, 1); w_ = -999; }
  void fin(int how, const void* src, int x) {
    w_ = x;
    W().ctor_end(this, 1, how, src, &w_, this);
  }
  friend bool operator==(const VT_FN& a, const VT_FN& b) { return a.w_ == b.w_; }
  friend bool operator!=(const VT_FN& a, const VT_FN& b) { return a.w_ != b.w_; }
  friend bool operator<(const VT_FN& a, const VT_FN& b) { return a.w_ < b.w_; }
  friend bool operator>(const VT_FN& a, const VT_FN& b) { return a.w_ > b.w_; }
  friend bool operator<=(const VT_FN& a, const VT_FN& b) { return a.w_ <= b.w_; }
  friend bool operator>=(const VT_FN& a, const VT_FN& b) { return a.w_ >= b.w_; }
};
#undef VT_FN
#undef VT_FHEAD
#undef VT_FMV
#undef VT_FNX
#undef VT_FASSIGN
#undef VT_FPAD
#undef VT_FVIRT
