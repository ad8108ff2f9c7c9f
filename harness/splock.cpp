// libstdc++'s locks for the atomic functions on shared_ptr, replaced by locks of the controlled scheduler. This file must
// not include <memory>, which declares the class with private members.
bool mcrtSpAcquire(const void* p);
void mcrtSpRelease(const void* p);

namespace std {
struct _Sp_locker {
  _Sp_locker(const _Sp_locker&) = delete;
  explicit _Sp_locker(const void* p) noexcept;
  _Sp_locker(const void* p, const void* q) noexcept;
  ~_Sp_locker();
  unsigned char _M_key1;
  unsigned char _M_key2;
};
static __thread const void* tLock[64];  // the addresses locked, innermost last
static __thread int tLocks = 0;
_Sp_locker::_Sp_locker(const void* p) noexcept : _M_key1(0), _M_key2(0) {
  if (mcrtSpAcquire(p)) {
    tLock[tLocks++] = p;
    _M_key1 = 1;
  }
}
_Sp_locker::_Sp_locker(const void* p, const void* q) noexcept : _M_key1(0), _M_key2(0) {
  if (mcrtSpAcquire(p)) {
    tLock[tLocks++] = p;
    _M_key1 = 1;
    if (p != q && mcrtSpAcquire(q)) {
      tLock[tLocks++] = q;
      _M_key2 = 1;
    }
  }
}
_Sp_locker::~_Sp_locker() {
  if (_M_key2 == 1) mcrtSpRelease(tLock[--tLocks]);
  if (_M_key1 == 1) mcrtSpRelease(tLock[--tLocks]);
}
}  // namespace std
