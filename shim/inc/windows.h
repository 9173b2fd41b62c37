#pragma once
typedef int BOOL; typedef void* HANDLE;
#define TRUE 1
#define FALSE 0
#define INFINITE 0xFFFFFFFFu
struct SRWLOCK { void* p; }; 
#define SRWLOCK_INIT SRWLOCK{nullptr}
struct CONDITION_VARIABLE { void* p; };
#define CONDITION_VARIABLE_LOCKMODE_SHARED 1
extern "C" {
void AcquireSRWLockExclusive(SRWLOCK*)noexcept; void AcquireSRWLockShared(SRWLOCK*)noexcept; void ReleaseSRWLockExclusive(SRWLOCK*)noexcept; void ReleaseSRWLockShared(SRWLOCK*)noexcept;
void InitializeConditionVariable(CONDITION_VARIABLE*)noexcept; BOOL SleepConditionVariableSRW(CONDITION_VARIABLE*, SRWLOCK*, DWORD, DWORD)noexcept; void WakeConditionVariable(CONDITION_VARIABLE*)noexcept; void WakeAllConditionVariable(CONDITION_VARIABLE*)noexcept;
HANDLE GetCurrentThread()noexcept; HANDLE GetCurrentProcess()noexcept; BOOL SetThreadPriorityBoost(HANDLE,BOOL)noexcept; int GetThreadPriority(HANDLE)noexcept; DWORD GetPriorityClass(HANDLE)noexcept; BOOL SetPriorityClass(HANDLE,DWORD)noexcept;
}
template<typename H> BOOL SetThreadPriority(H,int)noexcept;
#define NORMAL_PRIORITY_CLASS 0x20
#define HIGH_PRIORITY_CLASS 0x80
#define REALTIME_PRIORITY_CLASS 0x100
#define THREAD_PRIORITY_NORMAL 0
#define THREAD_PRIORITY_TIME_CRITICAL 15
#define THREAD_PRIORITY_ERROR_RETURN 0x7fffffff
