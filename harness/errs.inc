// The errno values of this platform, by their <errno.h> names, with the text strerror() gives for them.
ERR(E2BIG, "Argument list too long")
ERR(EACCES, "Permission denied")
ERR(EADDRINUSE, "Address already in use")
ERR(EADDRNOTAVAIL, "Cannot assign requested address")
ERR(EADV, "Advertise error")
ERR(EAFNOSUPPORT, "Address family not supported by protocol")
ERR(EAGAIN, "Resource temporarily unavailable")
ERR(EALREADY, "Operation already in progress")
ERR(EBADE, "Invalid exchange")
ERR(EBADF, "Bad file descriptor")
ERR(EBADFD, "File descriptor in bad state")
ERR(EBADMSG, "Bad message")
ERR(EBADR, "Invalid request descriptor")
ERR(EBADRQC, "Invalid request code")
ERR(EBADSLT, "Invalid slot")
ERR(EBFONT, "Bad font file format")
ERR(EBUSY, "Device or resource busy")
ERR(ECANCELED, "Operation canceled")
ERR(ECHILD, "No child processes")
ERR(ECHRNG, "Channel number out of range")
ERR(ECOMM, "Communication error on send")
ERR(ECONNABORTED, "Software caused connection abort")
ERR(ECONNREFUSED, "Connection refused")
ERR(ECONNRESET, "Connection reset by peer")
ERR(EDEADLK, "Resource deadlock avoided")
ERR(EDESTADDRREQ, "Destination address required")
ERR(EDOM, "Numerical argument out of domain")
ERR(EDOTDOT, "RFS specific error")
ERR(EDQUOT, "Disk quota exceeded")
ERR(EEXIST, "File exists")
ERR(EFAULT, "Bad address")
ERR(EFBIG, "File too large")
ERR(EHOSTDOWN, "Host is down")
ERR(EHOSTUNREACH, "No route to host")
ERR(EHWPOISON, "Memory page has hardware error")
ERR(EIDRM, "Identifier removed")
ERR(EILSEQ, "Invalid or incomplete multibyte or wide character")
ERR(EINPROGRESS, "Operation now in progress")
ERR(EINTR, "Interrupted system call")
ERR(EINVAL, "Invalid argument")
ERR(EIO, "Input/output error")
ERR(EISCONN, "Transport endpoint is already connected")
ERR(EISDIR, "Is a directory")
ERR(EISNAM, "Is a named type file")
ERR(EKEYEXPIRED, "Key has expired")
ERR(EKEYREJECTED, "Key was rejected by service")
ERR(EKEYREVOKED, "Key has been revoked")
ERR(EL2HLT, "Level 2 halted")
ERR(EL2NSYNC, "Level 2 not synchronized")
ERR(EL3HLT, "Level 3 halted")
ERR(EL3RST, "Level 3 reset")
ERR(ELIBACC, "Can not access a needed shared library")
ERR(ELIBBAD, "Accessing a corrupted shared library")
ERR(ELIBEXEC, "Cannot exec a shared library directly")
ERR(ELIBMAX, "Attempting to link in too many shared libraries")
ERR(ELIBSCN, ".lib section in a.out corrupted")
ERR(ELNRNG, "Link number out of range")
ERR(ELOOP, "Too many levels of symbolic links")
ERR(EMEDIUMTYPE, "Wrong medium type")
ERR(EMFILE, "Too many open files")
ERR(EMLINK, "Too many links")
ERR(EMSGSIZE, "Message too long")
ERR(EMULTIHOP, "Multihop attempted")
ERR(ENAMETOOLONG, "File name too long")
ERR(ENAVAIL, "No XENIX semaphores available")
ERR(ENETDOWN, "Network is down")
ERR(ENETRESET, "Network dropped connection on reset")
ERR(ENETUNREACH, "Network is unreachable")
ERR(ENFILE, "Too many open files in system")
ERR(ENOANO, "No anode")
ERR(ENOBUFS, "No buffer space available")
ERR(ENOCSI, "No CSI structure available")
ERR(ENODATA, "No data available")
ERR(ENODEV, "No such device")
ERR(ENOENT, "No such file or directory")
ERR(ENOEXEC, "Exec format error")
ERR(ENOKEY, "Required key not available")
ERR(ENOLCK, "No locks available")
ERR(ENOLINK, "Link has been severed")
ERR(ENOMEDIUM, "No medium found")
ERR(ENOMEM, "Cannot allocate memory")
ERR(ENOMSG, "No message of desired type")
ERR(ENONET, "Machine is not on the network")
ERR(ENOPKG, "Package not installed")
ERR(ENOPROTOOPT, "Protocol not available")
ERR(ENOSPC, "No space left on device")
ERR(ENOSR, "Out of streams resources")
ERR(ENOSTR, "Device not a stream")
ERR(ENOSYS, "Function not implemented")
ERR(ENOTBLK, "Block device required")
ERR(ENOTCONN, "Transport endpoint is not connected")
ERR(ENOTDIR, "Not a directory")
ERR(ENOTEMPTY, "Directory not empty")
ERR(ENOTNAM, "Not a XENIX named type file")
ERR(ENOTRECOVERABLE, "State not recoverable")
ERR(ENOTSOCK, "Socket operation on non-socket")
ERR(ENOTTY, "Inappropriate ioctl for device")
ERR(ENOTUNIQ, "Name not unique on network")
ERR(ENXIO, "No such device or address")
ERR(EOPNOTSUPP, "Operation not supported")
ERR(EOVERFLOW, "Value too large for defined data type")
ERR(EOWNERDEAD, "Owner died")
ERR(EPERM, "Operation not permitted")
ERR(EPFNOSUPPORT, "Protocol family not supported")
ERR(EPIPE, "Broken pipe")
ERR(EPROTO, "Protocol error")
ERR(EPROTONOSUPPORT, "Protocol not supported")
ERR(EPROTOTYPE, "Protocol wrong type for socket")
ERR(ERANGE, "Numerical result out of range")
ERR(EREMCHG, "Remote address changed")
ERR(EREMOTE, "Object is remote")
ERR(EREMOTEIO, "Remote I/O error")
ERR(ERESTART, "Interrupted system call should be restarted")
ERR(ERFKILL, "Operation not possible due to RF-kill")
ERR(EROFS, "Read-only file system")
ERR(ESHUTDOWN, "Cannot send after transport endpoint shutdown")
ERR(ESOCKTNOSUPPORT, "Socket type not supported")
ERR(ESPIPE, "Illegal seek")
ERR(ESRCH, "No such process")
ERR(ESRMNT, "Srmount error")
ERR(ESTALE, "Stale file handle")
ERR(ESTRPIPE, "Streams pipe error")
ERR(ETIME, "Timer expired")
ERR(ETIMEDOUT, "Connection timed out")
ERR(ETOOMANYREFS, "Too many references: cannot splice")
ERR(ETXTBSY, "Text file busy")
ERR(EUCLEAN, "Structure needs cleaning")
ERR(EUNATCH, "Protocol driver not attached")
ERR(EUSERS, "Too many users")
ERR(EXDEV, "Invalid cross-device link")
ERR(EXFULL, "Exchange full")
