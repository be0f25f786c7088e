/* glibc has no 32 bit development files here; nothing is a stub */
