// The Windows primitives nntl uses, over standard threads (for demonstrations, no simulator). demo_hook is called at the named points.
#include <windows.h>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <thread>
#include <list>
#include <map>
void (*demo_hook)(const char* what, void* obj) = nullptr;
#define HOOK(w, o) do { if (demo_hook) demo_hook(w, o); } while (0)
struct L { long excl, shared; };
static std::mutex g; static std::condition_variable cv;
static L* l(SRWLOCK* s) { return (L*)s; }
static std::map<void*, std::list<bool*>>& sleepers = *new std::map<void*, std::list<bool*>>;
extern "C" {
void AcquireSRWLockExclusive(SRWLOCK* s) { HOOK("lock", s); { std::unique_lock<std::mutex> k(g); cv.wait(k, [&] { return !l(s)->excl && !l(s)->shared; }); l(s)->excl = 1; } HOOK("locked", s); }
void AcquireSRWLockShared(SRWLOCK* s) { HOOK("lockShared", s); { std::unique_lock<std::mutex> k(g); cv.wait(k, [&] { return !l(s)->excl; }); l(s)->shared++; } HOOK("lockedShared", s); }
void ReleaseSRWLockExclusive(SRWLOCK* s) { HOOK("unlock", s); { std::unique_lock<std::mutex> k(g); l(s)->excl = 0; cv.notify_all(); } HOOK("unlocked", s); }
void ReleaseSRWLockShared(SRWLOCK* s) { HOOK("unlockShared", s); { std::unique_lock<std::mutex> k(g); l(s)->shared--; cv.notify_all(); } HOOK("unlockedShared", s); }
unsigned char TryAcquireSRWLockExclusive(SRWLOCK* s) { std::unique_lock<std::mutex> k(g); if (l(s)->excl || l(s)->shared) return 0; l(s)->excl = 1; return 1; }
unsigned char TryAcquireSRWLockShared(SRWLOCK* s) { std::unique_lock<std::mutex> k(g); if (l(s)->excl) return 0; l(s)->shared++; return 1; }
void InitializeSRWLock(SRWLOCK* s) { l(s)->excl = l(s)->shared = 0; }
void InitializeConditionVariable(CONDITION_VARIABLE* s) { std::unique_lock<std::mutex> k(g); sleepers[s].clear(); }
BOOL SleepConditionVariableSRW(CONDITION_VARIABLE* v, SRWLOCK* s, DWORD ms, DWORD fl) {
	HOOK("wait", v); const bool sh = fl & CONDITION_VARIABLE_LOCKMODE_SHARED; bool ok = true, woken = false;
	{ std::unique_lock<std::mutex> k(g); if (sh) l(s)->shared--; else l(s)->excl = 0; cv.notify_all(); sleepers[v].push_back(&woken); auto p = [&] { return woken; };
	  if (ms == INFINITE) cv.wait(k, p); else ok = cv.wait_for(k, std::chrono::milliseconds(ms), p);
	  if (!woken) sleepers[v].remove(&woken);
	  if (sh) { cv.wait(k, [&] { return !l(s)->excl; }); l(s)->shared++; } else { cv.wait(k, [&] { return !l(s)->excl && !l(s)->shared; }); l(s)->excl = 1; } }
	HOOK("waited", v); return ok;
}
void WakeConditionVariable(CONDITION_VARIABLE* v) { HOOK("notify", v); std::unique_lock<std::mutex> k(g); auto& q = sleepers[v]; if (!q.empty()) { *q.front() = true; q.pop_front(); } cv.notify_all(); }
void WakeAllConditionVariable(CONDITION_VARIABLE* v) { HOOK("notifyAll", v); std::unique_lock<std::mutex> k(g); for (bool* b : sleepers[v]) *b = true; sleepers[v].clear(); cv.notify_all(); }
static DWORD pc = NORMAL_PRIORITY_CLASS; static int tp[64];
HANDLE GetCurrentThread() { return 1; } HANDLE GetCurrentProcess() { return 2; }
int (*demo_set_thread_priority)(HANDLE, int) = nullptr;
int GetThreadPriority(HANDLE h) { return tp[h % 61]; } BOOL SetThreadPriority(HANDLE h, int p) { if (demo_set_thread_priority && !demo_set_thread_priority(h, p)) return 0; tp[h % 61] = p; return 1; }
DWORD GetPriorityClass(HANDLE) { return pc; } BOOL SetPriorityClass(HANDLE, DWORD p) { pc = p; return 1; } BOOL SetThreadPriorityBoost(HANDLE, BOOL) { return 1; }
void Sleep(DWORD ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); } DWORD GetLastError() { return 0; }
}
