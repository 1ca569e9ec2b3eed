#pragma once
// Verification stand-in for abseil's mutex: every lock operation of the code under check goes
// through the vrt_* runtime, which is either a plain one (runtime_free.cpp) or the controlled
// scheduler of the model checker (runtime_mc.cpp). Force-included: the real header and every abseil header that
// uses it come first; then the names are redirected, so abseil itself keeps its own classes.
#include <absl/synchronization/mutex.h>

#include <absl/container/fixed_array.h>
#include <absl/container/flat_hash_map.h>
#include <absl/container/flat_hash_set.h>
#include <absl/container/inlined_vector.h>
#include <absl/strings/cord.h>
#include <absl/strings/str_cat.h>
#include <absl/strings/str_format.h>
#include <absl/time/clock.h>
#include <cryptopp/aes.h>
#include <cryptopp/gcm.h>
#include <cryptopp/hmac.h>
#include <cryptopp/osrng.h>
#include <google/protobuf/message.h>

#define Mutex VrtMutex
#define MutexLock VrtMutexLock
#define ReaderMutexLock VrtReaderMutexLock
#define WriterMutexLock VrtMutexLock
#define MutexLockMaybe VrtMutexLockMaybe
#define ReleasableMutexLock VrtReleasableMutexLock
#define CondVar VrtCondVar
#define Condition VrtCondition

#include <absl/base/attributes.h>
#include <absl/base/thread_annotations.h>
#include <absl/time/time.h>
#include <cstdint>
#include <functional>

extern "C"
{
    void vrt_mutex_lock(void* m, int shared);
    int vrt_mutex_trylock(void* m, int shared);
    void vrt_mutex_unlock(void* m, int shared);
    void vrt_mutex_destroy(void* m);
    // Waits with m held exclusively until cond(arg) or the deadline (nanoseconds since the Unix
    // epoch, INT64_MAX for none). Returns cond(arg).
    int vrt_mutex_await(void* m, bool (*cond)(void*), void* arg, int64_t deadline_ns);
    // Condition variables: signal with n=1, broadcast with n=-1.
    int vrt_cv_wait(void* cv, void* m, int64_t deadline_ns);
    void vrt_cv_signal(void* cv, int n);
}

namespace absl
{
class Mutex;
class Condition
{
public:
    Condition(bool (*f)(void*), void* arg) : fn_([f, arg]() { return f(arg); }) {}
    template <typename T>
    Condition(bool (*f)(T*), T* arg) : fn_([f, arg]() { return f(arg); })
    {
    }
    template <typename T, typename = void>
    Condition(bool (*f)(const T*), T* arg) : fn_([f, arg]() { return f(arg); })
    {
    }
    template <typename T>
    Condition(T* obj, bool (T::*m)()) : fn_([obj, m]() { return (obj->*m)(); })
    {
    }
    template <typename T>
    Condition(const T* obj, bool (T::*m)() const) : fn_([obj, m]() { return (obj->*m)(); })
    {
    }
    explicit Condition(const bool* b) : fn_([b]() { return *b; }) {}
    template <typename T, typename E = decltype(static_cast<bool (T::*)() const>(&T::operator()))>
    explicit Condition(const T* obj) : fn_([obj]() { return (*obj)(); })
    {
    }
    bool Eval() const { return fn_(); }

private:
    std::function<bool()> fn_;
};

class ABSL_LOCKABLE Mutex
{
public:
    Mutex() = default;
    ~Mutex() { vrt_mutex_destroy(this); }
    Mutex(const Mutex&) = delete;
    Mutex& operator=(const Mutex&) = delete;

    void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { vrt_mutex_lock(this, 0); }
    void Unlock() ABSL_UNLOCK_FUNCTION() { vrt_mutex_unlock(this, 0); }
    bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return vrt_mutex_trylock(this, 0); }
    void ReaderLock() ABSL_SHARED_LOCK_FUNCTION() { vrt_mutex_lock(this, 1); }
    void ReaderUnlock() ABSL_UNLOCK_FUNCTION() { vrt_mutex_unlock(this, 1); }
    bool ReaderTryLock() ABSL_SHARED_TRYLOCK_FUNCTION(true) { return vrt_mutex_trylock(this, 1); }
    void WriterLock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); }
    void WriterUnlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
    bool WriterTryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return TryLock(); }
    void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); }
    void unlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
    bool try_lock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return TryLock(); }
    void lock_shared() ABSL_SHARED_LOCK_FUNCTION() { ReaderLock(); }
    void unlock_shared() ABSL_UNLOCK_FUNCTION() { ReaderUnlock(); }
    bool try_lock_shared() ABSL_SHARED_TRYLOCK_FUNCTION(true) { return ReaderTryLock(); }
    void AssertHeld() const ABSL_ASSERT_EXCLUSIVE_LOCK() {}
    void AssertReaderHeld() const ABSL_ASSERT_SHARED_LOCK() {}
    void AssertNotHeld() const {}
    void EnableDebugLog(const char*) {}
    void ForgetDeadlockInfo() {}

    void Await(const Condition& c) { await(c, INT64_MAX); }
    bool AwaitWithTimeout(const Condition& c, absl::Duration d)
    {
        return await(c, deadline(d));
    }
    bool AwaitWithDeadline(const Condition& c, absl::Time t) { return await(c, to_ns(t)); }
    void LockWhen(const Condition& c) ABSL_EXCLUSIVE_LOCK_FUNCTION()
    {
        Lock();
        Await(c);
    }
    bool LockWhenWithTimeout(const Condition& c, absl::Duration d) ABSL_EXCLUSIVE_LOCK_FUNCTION()
    {
        Lock();
        return AwaitWithTimeout(c, d);
    }
    bool LockWhenWithDeadline(const Condition& c, absl::Time t) ABSL_EXCLUSIVE_LOCK_FUNCTION()
    {
        Lock();
        return AwaitWithDeadline(c, t);
    }

    static int64_t to_ns(absl::Time t)
    {
        if (t == absl::InfiniteFuture())
            return INT64_MAX;
        if (t == absl::InfinitePast())
            return 0;
        return absl::ToUnixNanos(t);
    }
    static int64_t deadline(absl::Duration d);

private:
    static bool tramp(void* p) { return static_cast<const Condition*>(p)->Eval(); }
    bool await(const Condition& c, int64_t ns)
    {
        return vrt_mutex_await(this, &tramp, const_cast<Condition*>(&c), ns);
    }
    alignas(8) unsigned char state_[8] = {};
};

class ABSL_SCOPED_LOCKABLE MutexLock
{
public:
    explicit MutexLock(Mutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_->Lock(); }
    explicit MutexLock(Mutex& m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(&m) { m_->Lock(); }
    MutexLock(Mutex* m, const Condition& c) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m)
    {
        m_->LockWhen(c);
    }
    ~MutexLock() ABSL_UNLOCK_FUNCTION() { m_->Unlock(); }
    MutexLock(const MutexLock&) = delete;

private:
    Mutex* const m_;
};
class ABSL_SCOPED_LOCKABLE ReaderMutexLock
{
public:
    explicit ReaderMutexLock(Mutex* m) ABSL_SHARED_LOCK_FUNCTION(m) : m_(m) { m_->ReaderLock(); }
    ~ReaderMutexLock() ABSL_UNLOCK_FUNCTION() { m_->ReaderUnlock(); }
    ReaderMutexLock(const ReaderMutexLock&) = delete;

private:
    Mutex* const m_;
};
class ABSL_SCOPED_LOCKABLE MutexLockMaybe
{
public:
    explicit MutexLockMaybe(Mutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m)
    {
        if (m_)
            m_->Lock();
    }
    ~MutexLockMaybe() ABSL_UNLOCK_FUNCTION()
    {
        if (m_)
            m_->Unlock();
    }

private:
    Mutex* const m_;
};
class ABSL_SCOPED_LOCKABLE ReleasableMutexLock
{
public:
    explicit ReleasableMutexLock(Mutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_->Lock(); }
    ~ReleasableMutexLock() ABSL_UNLOCK_FUNCTION()
    {
        if (m_)
            m_->Unlock();
    }
    void Release() ABSL_UNLOCK_FUNCTION()
    {
        m_->Unlock();
        m_ = nullptr;
    }

private:
    Mutex* m_;
};
class CondVar
{
public:
    void Wait(Mutex* m) { vrt_cv_wait(this, m, INT64_MAX); }
    bool WaitWithDeadline(Mutex* m, absl::Time t)
    {
        return vrt_cv_wait(this, m, Mutex::to_ns(t));
    }
    bool WaitWithTimeout(Mutex* m, absl::Duration d)
    {
        return vrt_cv_wait(this, m, Mutex::deadline(d));
    }
    void Signal() { vrt_cv_signal(this, 1); }
    void SignalAll() { vrt_cv_signal(this, -1); }

private:
    alignas(8) unsigned char state_[8] = {};
};
}    // namespace absl
