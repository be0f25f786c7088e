/* What configure finds on this platform (Linux, glibc, gcc), without the digest
 * provider and option parser choices, which the checks enumerate themselves. */
#ifndef MC_CONFIG_H
#define MC_CONFIG_H
#ifndef HAVE_CHDIR
#define HAVE_CHDIR 1
#endif
#ifndef HAVE_CLOSE
#define HAVE_CLOSE 1
#endif
#ifndef HAVE_DECL_MEMRCHR
#define HAVE_DECL_MEMRCHR 0
#endif
#ifndef HAVE_DECL_STRERROR_R
#define HAVE_DECL_STRERROR_R 1
#endif
#ifndef HAVE_DLFCN_H
#define HAVE_DLFCN_H 1
#endif
#ifndef HAVE_ERRNO_H
#define HAVE_ERRNO_H 1
#endif
#ifndef HAVE_FCLOSE
#define HAVE_FCLOSE 1
#endif
#ifndef HAVE_FCNTL_H
#define HAVE_FCNTL_H 1
#endif
#ifndef HAVE_FEOF
#define HAVE_FEOF 1
#endif
#ifndef HAVE_FGETS
#define HAVE_FGETS 1
#endif
#ifndef HAVE_FMEMOPEN
#define HAVE_FMEMOPEN 1
#endif
#ifndef HAVE_FOPEN
#define HAVE_FOPEN 1
#endif
#ifndef HAVE_FREAD
#define HAVE_FREAD 1
#endif
#ifndef HAVE_FREE
#define HAVE_FREE 1
#endif
#ifndef HAVE_FSEEKO
#define HAVE_FSEEKO 1
#endif
#ifndef HAVE_FSEEKO64
#define HAVE_FSEEKO64 1
#endif
#ifndef HAVE_FSTAT
#define HAVE_FSTAT 1
#endif
#ifndef HAVE_FTRUNCATE
#define HAVE_FTRUNCATE 1
#endif
#ifndef HAVE_FWRITE
#define HAVE_FWRITE 1
#endif
#ifndef HAVE_GETCWD
#define HAVE_GETCWD 1
#endif
#ifndef HAVE_GETENV
#define HAVE_GETENV 1
#endif
#ifndef HAVE_GNU_DL_DLSYM
#define HAVE_GNU_DL_DLSYM 1
#endif
#ifndef HAVE_INTTYPES_H
#define HAVE_INTTYPES_H 1
#endif
#ifndef HAVE_IOCTL
#define HAVE_IOCTL 1
#endif
#ifndef HAVE_LANGINFO_CODESET
#define HAVE_LANGINFO_CODESET 1
#endif
#ifndef HAVE_LANGINFO_H
#define HAVE_LANGINFO_H 1
#endif
#ifndef HAVE_LIBDL
#define HAVE_LIBDL 1
#endif
#ifndef HAVE_LIMITS_H
#define HAVE_LIMITS_H 1
#endif
#ifndef HAVE_LINUX_FS_H
#define HAVE_LINUX_FS_H 1
#endif
#ifndef HAVE_LOCALECONV
#define HAVE_LOCALECONV 1
#endif
#ifndef HAVE_LOCALE_H
#define HAVE_LOCALE_H 1
#endif
#ifndef HAVE_LSEEK
#define HAVE_LSEEK 1
#endif
#ifndef HAVE_MALLOC
#define HAVE_MALLOC 1
#endif
#ifndef HAVE_MEMCHR
#define HAVE_MEMCHR 1
#endif
#ifndef HAVE_MEMCMP
#define HAVE_MEMCMP 1
#endif
#ifndef HAVE_MEMCPY
#define HAVE_MEMCPY 1
#endif
#ifndef HAVE_MEMRCHR
#define HAVE_MEMRCHR 1
#endif
#ifndef HAVE_MEMSET
#define HAVE_MEMSET 1
#endif
#ifndef HAVE_MKDIR
#define HAVE_MKDIR 1
#endif
#ifndef HAVE_MKDIR_MODE
#define HAVE_MKDIR_MODE 1
#endif
#ifndef HAVE_MKSTEMP
#define HAVE_MKSTEMP 1
#endif
#ifndef HAVE_MULTI_THREAD_SUPPORT
#define HAVE_MULTI_THREAD_SUPPORT 1
#endif
#ifndef HAVE_NL_LANGINFO
#define HAVE_NL_LANGINFO 1
#endif
#ifndef HAVE_OPEN
#define HAVE_OPEN 1
#endif
#ifndef HAVE_POSIX_FADVISE
#define HAVE_POSIX_FADVISE 1
#endif
#ifndef HAVE_PRINTF_JD
#define HAVE_PRINTF_JD 1
#endif
#ifndef HAVE_PRINTF_ZD
#define HAVE_PRINTF_ZD 1
#endif
#ifndef HAVE_PTHREAD_H
#define HAVE_PTHREAD_H 1
#endif
#ifndef HAVE_READ
#define HAVE_READ 1
#endif
#ifndef HAVE_REALLOC
#define HAVE_REALLOC 1
#endif
#ifndef HAVE_SETENV
#define HAVE_SETENV 1
#endif
#ifndef HAVE_SETLOCALE
#define HAVE_SETLOCALE 1
#endif
#ifndef HAVE_SETVBUF
#define HAVE_SETVBUF 1
#endif
#ifndef HAVE_SIGNAL_H
#define HAVE_SIGNAL_H 1
#endif
#ifndef HAVE_SNPRINTF
#define HAVE_SNPRINTF 1
#endif
#ifndef HAVE_SSCANF
#define HAVE_SSCANF 1
#endif
#ifndef HAVE_STAT
#define HAVE_STAT 1
#endif
#ifndef HAVE_STDARG_H
#define HAVE_STDARG_H 1
#endif
#ifndef HAVE_STDINT_H
#define HAVE_STDINT_H 1
#endif
#ifndef HAVE_STDIO_H
#define HAVE_STDIO_H 1
#endif
#ifndef HAVE_STDLIB_H
#define HAVE_STDLIB_H 1
#endif
#ifndef HAVE_STRCASECMP
#define HAVE_STRCASECMP 1
#endif
#ifndef HAVE_STRCHR
#define HAVE_STRCHR 1
#endif
#ifndef HAVE_STRERROR_R
#define HAVE_STRERROR_R 1
#endif
#ifndef HAVE_STRINGS_H
#define HAVE_STRINGS_H 1
#endif
#ifndef HAVE_STRING_H
#define HAVE_STRING_H 1
#endif
#ifndef HAVE_STRLEN
#define HAVE_STRLEN 1
#endif
#ifndef HAVE_STRNCASECMP
#define HAVE_STRNCASECMP 1
#endif
#ifndef HAVE_STRNCMP
#define HAVE_STRNCMP 1
#endif
#ifndef HAVE_STRNCPY
#define HAVE_STRNCPY 1
#endif
#ifndef HAVE_STRRCHR
#define HAVE_STRRCHR 1
#endif
#ifndef HAVE_STRSTR
#define HAVE_STRSTR 1
#endif
#ifndef HAVE_SYS_IOCTL_H
#define HAVE_SYS_IOCTL_H 1
#endif
#ifndef HAVE_SYS_SIGNAL_H
#define HAVE_SYS_SIGNAL_H 1
#endif
#ifndef HAVE_SYS_STAT_H
#define HAVE_SYS_STAT_H 1
#endif
#ifndef HAVE_SYS_TYPES_H
#define HAVE_SYS_TYPES_H 1
#endif
#ifndef HAVE_TZSET
#define HAVE_TZSET 1
#endif
#ifndef HAVE_UNISTD_H
#define HAVE_UNISTD_H 1
#endif
#ifndef HAVE_UNLINK
#define HAVE_UNLINK 1
#endif
#ifndef HAVE_VFPRINTF
#define HAVE_VFPRINTF 1
#endif
#ifndef HAVE_VSNPRINTF
#define HAVE_VSNPRINTF 1
#endif
#ifndef HAVE_WCHAR_H
#define HAVE_WCHAR_H 1
#endif
#ifndef HAVE_WCTYPE_H
#define HAVE_WCTYPE_H 1
#endif
#ifndef HAVE_WRITE
#define HAVE_WRITE 1
#endif
#ifndef LT_OBJDIR
#define LT_OBJDIR ".libs/"
#endif
#ifndef SIZEOF_INT
#define SIZEOF_INT 4
#endif
#ifndef SIZEOF_LONG
#define SIZEOF_LONG 8
#endif
#ifndef SIZEOF_OFF_T
#define SIZEOF_OFF_T 8
#endif
#ifndef SIZEOF_SIZE_T
#define SIZEOF_SIZE_T 8
#endif
#ifndef SIZEOF_WCHAR_T
#define SIZEOF_WCHAR_T 4
#endif
#ifndef STDC_HEADERS
#define STDC_HEADERS 1
#endif
#define PACKAGE "libhmac"
#define PACKAGE_NAME "libhmac"
#define PACKAGE_BUGREPORT "joachim.metz@gmail.com"
#endif
