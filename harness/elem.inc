// One instrumented element type; included repeatedly by vt.h with
//   VT_TPL    template head          VT_SPEC  specialisation id
//   VT_NAME   constructor name       VT_TY    abstract type number
//   VT_BASES  base clause            VT_MV    0 moves clear, 1 moves keep, 2 no moves; 3 and 4 as 0 and 1, noexcept
//   VT_FINAL  final or nothing
//   VT_INIT(x)  initialiser from a value
//   VT_BASEPTR  address a polymorphic must show     VT_EXTRA  further members
// Every special member announces itself; a copy from a non-const lvalue and a
// copy from a const one are told apart; unary & is useless on purpose.
VT_TPL struct VT_SPEC VT_FINAL VT_BASES {
  static constexpr int mv = VT_MV % 3;
  int w_;
  VT_NAME() VT_INIT(1) { W().ctor_begin(nullptr); fin(HDef, nullptr, 1); }
  VT_NAME(int x) VT_INIT(x) { W().ctor_begin(nullptr); fin(HArg, nullptr, x); }
  VT_NAME(std::initializer_list<int> l) VT_INIT(*l.begin()) {
    W().ctor_begin(nullptr);
    fin(HList, nullptr, *l.begin());
  }
  VT_NAME(const VT_NAME& o) VT_INIT(o.w_) {
    W().ctor_begin(std::addressof(o));
    fin(HCopy, std::addressof(o), o.val());
  }
  VT_NAME(VT_NAME& o) VT_INIT(o.w_) {
    W().ctor_begin(std::addressof(o));
    fin(HNonConst, std::addressof(o), o.val());
  }
  VT_NAME& operator=(const VT_NAME& o) {
    W().assign(this, HCopy, std::addressof(o));
    setv(o.val());
    return *this;
  }
  VT_NAME& operator=(VT_NAME& o) {
    W().assign(this, HNonConst, std::addressof(o));
    setv(o.val());
    return *this;
  }
  VT_NAME& operator=(int x) {
    W().assign(this, HArg, nullptr);
    setv(x);
    return *this;
  }
#if VT_MV != 2
  VT_NAME(VT_NAME&& o) noexcept(VT_MV >= 3) VT_INIT(o.w_) {
    W().ctor_begin(std::addressof(o));
    int x = o.val();
    if (VT_MV % 3 == 0) o.setv(MF);
    fin(HMove, std::addressof(o), x);
  }
  VT_NAME& operator=(VT_NAME&& o) noexcept(VT_MV >= 3) {
    W().assign(this, HMove, std::addressof(o));
    int x = o.val();
    if (VT_MV % 3 == 0) o.setv(MF);
    setv(x);
    return *this;
  }
#endif
  VT_DTOR
  VT_NAME* operator&() const { return nullptr; }
  void fin(int how, const void* src, int x) {
    setv(x);
    W().ctor_end(this, VT_TY, how, src, std::addressof(w_), VT_BASEPTR);
  }
  int val() const { return w_; }
  VT_EXTRA
};
