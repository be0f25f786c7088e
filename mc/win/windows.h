/* What the tree uses of the Windows interface, for compiling its Windows variant here. */
#ifndef MC_WINDOWS_H
#define MC_WINDOWS_H
#include <stddef.h>
#include <stdlib.h>
#include <stdio.h>
#include <wchar.h>
#include <sys/types.h>
#define WINAPI
#define TRUE 1
#define FALSE 0
typedef int BOOL; typedef unsigned long DWORD; typedef void *HANDLE, *HINSTANCE, *HMODULE, *LPVOID; typedef size_t SIZE_T; typedef unsigned int UINT;
typedef BOOL (WINAPI *PHANDLER_ROUTINE)( DWORD );
#define DLL_PROCESS_DETACH 0
#define DLL_PROCESS_ATTACH 1
#define DLL_THREAD_ATTACH 2
#define DLL_THREAD_DETACH 3
#define CTRL_C_EVENT 0
#define CTRL_BREAK_EVENT 1
#define CTRL_CLOSE_EVENT 2
#define SEM_FAILCRITICALERRORS 1
#define HEAP_ZERO_MEMORY 8
HANDLE GetProcessHeap( void ); LPVOID HeapAlloc( HANDLE, DWORD, SIZE_T ); LPVOID HeapReAlloc( HANDLE, DWORD, LPVOID, SIZE_T ); BOOL HeapFree( HANDLE, DWORD, LPVOID );
BOOL SetConsoleCtrlHandler( PHANDLER_ROUTINE, BOOL ); UINT SetErrorMode( UINT ); BOOL DisableThreadLibraryCalls( HMODULE ); DWORD GetLastError( void );
int _close( int ); int wcsnicmp( const wchar_t *, const wchar_t *, size_t ); int snwprintf( wchar_t *, size_t, const wchar_t *, ... ); int _wcsnicmp( const wchar_t *, const wchar_t *, size_t );
#endif
