// Stand-in for <windows.h>: the few primitives nntl uses, implemented by the simulator (sim/sim.cpp)
#pragma once
#include <cstddef>
typedef int BOOL; typedef unsigned long DWORD; typedef unsigned long HANDLE;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define INFINITE 0xFFFFFFFFul
#define CONDITION_VARIABLE_LOCKMODE_SHARED 1
struct SRWLOCK { void* p[7]; }; struct CONDITION_VARIABLE { void* p[6]; };
#define SRWLOCK_INIT SRWLOCK{}
#define NORMAL_PRIORITY_CLASS 0x20
#define HIGH_PRIORITY_CLASS 0x80
#define REALTIME_PRIORITY_CLASS 0x100
#define THREAD_PRIORITY_NORMAL 0
#define THREAD_PRIORITY_TIME_CRITICAL 15
#define THREAD_PRIORITY_ERROR_RETURN 0x7fffffff
extern "C" {
	void AcquireSRWLockExclusive(SRWLOCK*); void AcquireSRWLockShared(SRWLOCK*); void ReleaseSRWLockExclusive(SRWLOCK*); void ReleaseSRWLockShared(SRWLOCK*);
	unsigned char TryAcquireSRWLockExclusive(SRWLOCK*); unsigned char TryAcquireSRWLockShared(SRWLOCK*);
	void InitializeSRWLock(SRWLOCK*);
	void InitializeConditionVariable(CONDITION_VARIABLE*); BOOL SleepConditionVariableSRW(CONDITION_VARIABLE*, SRWLOCK*, DWORD, DWORD);
	void WakeConditionVariable(CONDITION_VARIABLE*); void WakeAllConditionVariable(CONDITION_VARIABLE*);
	HANDLE GetCurrentThread(); HANDLE GetCurrentProcess();
	int GetThreadPriority(HANDLE); BOOL SetThreadPriority(HANDLE, int); DWORD GetPriorityClass(HANDLE); BOOL SetPriorityClass(HANDLE, DWORD); BOOL SetThreadPriorityBoost(HANDLE, BOOL);
	void Sleep(DWORD); DWORD GetLastError();
}
