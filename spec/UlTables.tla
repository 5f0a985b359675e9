------------------------------ MODULE UlTables ------------------------------
(* The code tables of the unified logging value decoders: a record per code   *)
(* (n) with its name (s).                                                     *)
EXTENDS Integers
Errno == {
  [n |-> -1, s |-> "Restart syscall"],
  [n |-> -2, s |-> "Don't modify regs, just return"],
  [n |-> -5, s |-> "Restart lookup under heavy vnode pressure/recycling"],
  [n |-> -6, s |-> "Red drive open"],
  [n |-> -7, s |-> "Keep looking"],
  [n |-> -8, s |-> "Data less"],
  [n |-> 0, s |-> "Success"],
  [n |-> 1, s |-> "Operation not permitted"],
  [n |-> 2, s |-> "No such file or directory"],
  [n |-> 3, s |-> "No such process"],
  [n |-> 4, s |-> "Interrupted system call"],
  [n |-> 5, s |-> "Input/Output error"],
  [n |-> 6, s |-> "Device not configured"],
  [n |-> 7, s |-> "Argument list too long"],
  [n |-> 8, s |-> "Exec format error"],
  [n |-> 9, s |-> "Bad file descriptor"],
  [n |-> 10, s |-> "No child processes"],
  [n |-> 11, s |-> "Resource deadlock avoided"],
  [n |-> 12, s |-> "Cannot allocate memory"],
  [n |-> 13, s |-> "Permission denied"],
  [n |-> 14, s |-> "Bad address"],
  [n |-> 15, s |-> "Block device required"],
  [n |-> 16, s |-> "Device / Resource busy"],
  [n |-> 17, s |-> "File exists"],
  [n |-> 18, s |-> "Cross-device link"],
  [n |-> 19, s |-> "Operation not supported by device"],
  [n |-> 20, s |-> "Not a directory"],
  [n |-> 21, s |-> "Is a directory"],
  [n |-> 22, s |-> "Invalid argument"],
  [n |-> 23, s |-> "Too many open files in system"],
  [n |-> 24, s |-> "Too many open files"],
  [n |-> 25, s |-> "Inappropriate ioctl for devices"],
  [n |-> 26, s |-> "Text file busy"],
  [n |-> 27, s |-> "File too large"],
  [n |-> 28, s |-> "No space left on device"],
  [n |-> 29, s |-> "Illegal seek"],
  [n |-> 30, s |-> "Read-only filesystem"],
  [n |-> 31, s |-> "Too many links"],
  [n |-> 32, s |-> "Broken pipe"],
  [n |-> 33, s |-> "Numerical argument out of domain"],
  [n |-> 34, s |-> "Result too large"],
  [n |-> 35, s |-> "Resource temporarily unavailable, operation would block"],
  [n |-> 36, s |-> "Operation now in progress"],
  [n |-> 37, s |-> "Operation already in progress"],
  [n |-> 38, s |-> "Socket operation on non-socket"],
  [n |-> 39, s |-> "Destination address required"],
  [n |-> 40, s |-> "Message too long"],
  [n |-> 41, s |-> "Protocol wrong type for socket"],
  [n |-> 42, s |-> "Protocol not available"],
  [n |-> 43, s |-> "Protocol not supported"],
  [n |-> 44, s |-> "Socket type not supported"],
  [n |-> 45, s |-> "Operation not supported, Operation not supported on socket"],
  [n |-> 46, s |-> "Protocol family not supported"],
  [n |-> 47, s |-> "Address family not supported by protocol family"],
  [n |-> 48, s |-> "Address already in use"],
  [n |-> 49, s |-> "Can't assign requested address"],
  [n |-> 50, s |-> "Network is down"],
  [n |-> 51, s |-> "Network is unreachable"],
  [n |-> 52, s |-> "Network dropped connection on reset"],
  [n |-> 53, s |-> "Software caused connection abort"],
  [n |-> 54, s |-> "Connection reset by peer"],
  [n |-> 55, s |-> "No buffer space available"],
  [n |-> 56, s |-> "Socket is already connected"],
  [n |-> 57, s |-> "Socket is not connected"],
  [n |-> 58, s |-> "Can't send after socket shutdown"],
  [n |-> 59, s |-> "Too many references: can't splice"],
  [n |-> 60, s |-> "Operation timed out"],
  [n |-> 61, s |-> "Connection refused"],
  [n |-> 62, s |-> "Too many levels of symbolic links"],
  [n |-> 63, s |-> "File name too long"],
  [n |-> 64, s |-> "Host is down"],
  [n |-> 65, s |-> "No route to host"],
  [n |-> 66, s |-> "Directory not empty"],
  [n |-> 67, s |-> "Too many processes"],
  [n |-> 68, s |-> "Too many users"],
  [n |-> 69, s |-> "Disc quota exceeded"],
  [n |-> 70, s |-> "Stale NFS file handle"],
  [n |-> 71, s |-> "Too many levels of remote in path"],
  [n |-> 72, s |-> "RPC struct is bad"],
  [n |-> 73, s |-> "RPC version wrong"],
  [n |-> 74, s |-> "RPC prog. not avail"],
  [n |-> 75, s |-> "Program version wrong"],
  [n |-> 76, s |-> "Bad procedure for program"],
  [n |-> 77, s |-> "No locks available"],
  [n |-> 78, s |-> "Function not implemented"],
  [n |-> 79, s |-> "Inappropriate file type or format"],
  [n |-> 80, s |-> "Authentication error"],
  [n |-> 81, s |-> "Need authenticator"],
  [n |-> 82, s |-> "Device power is off"],
  [n |-> 83, s |-> "Device error, e.g. paper out"],
  [n |-> 84, s |-> "Value too large to be stored in data type"],
  [n |-> 85, s |-> "Bad executable"],
  [n |-> 86, s |-> "Bad CPU type in executable"],
  [n |-> 87, s |-> "Shared library version mismatch"],
  [n |-> 88, s |-> "Malformed Macho file"],
  [n |-> 89, s |-> "Operation canceled"],
  [n |-> 90, s |-> "Identifier removed"],
  [n |-> 91, s |-> "No message of desired type"],
  [n |-> 92, s |-> "Illegal byte sequence"],
  [n |-> 93, s |-> "Attribute not found"],
  [n |-> 94, s |-> "Bad message"],
  [n |-> 95, s |-> "Reserved"],
  [n |-> 96, s |-> "No message available on STREAM"],
  [n |-> 97, s |-> "Reserved"],
  [n |-> 98, s |-> "No STREAM resources"],
  [n |-> 99, s |-> "Not a STREAM"],
  [n |-> 100, s |-> "Protocol error"],
  [n |-> 101, s |-> "STREAM ioctl timeout"],
  [n |-> 102, s |-> "Operation not supported on socket"],
  [n |-> 103, s |-> "No such policy registered"],
  [n |-> 104, s |-> "State not recoverable"],
  [n |-> 105, s |-> "Previous owner died"],
  [n |-> 106, s |-> "Interface output queue is full, Must be equal largest errno"]}
Sqlite == {
  [n |-> 0, s |-> "SQLITE_OK"],
  [n |-> 1, s |-> "SQLITE_ERROR"],
  [n |-> 2, s |-> "SQLITE_INTERNAL"],
  [n |-> 3, s |-> "SQLITE_PERM"],
  [n |-> 4, s |-> "SQLITE_ABORT"],
  [n |-> 5, s |-> "SQLITE_BUSY"],
  [n |-> 6, s |-> "SQLITE_LOCKED"],
  [n |-> 7, s |-> "SQLITE_NOMEM"],
  [n |-> 8, s |-> "SQLITE_READONLY"],
  [n |-> 9, s |-> "SQLITE_INTERRUPT"],
  [n |-> 10, s |-> "SQLITE_IOERR"],
  [n |-> 11, s |-> "SQLITE_CORRUPT"],
  [n |-> 12, s |-> "SQLITE_NOTFOUND"],
  [n |-> 13, s |-> "SQLITE_FULL"],
  [n |-> 14, s |-> "SQLITE_CANTOPEN"],
  [n |-> 15, s |-> "SQLITE_PROTOCOL"],
  [n |-> 16, s |-> "SQLITE_EMPTY"],
  [n |-> 17, s |-> "SQLITE_SCHEMA"],
  [n |-> 18, s |-> "SQLITE_TOOBIG"],
  [n |-> 19, s |-> "SQLITE_CONSTRAINT"],
  [n |-> 20, s |-> "SQLITE_MISMATCH"],
  [n |-> 21, s |-> "SQLITE_MISUSE"],
  [n |-> 22, s |-> "SQLITE_NOLFS"],
  [n |-> 23, s |-> "SQLITE_AUTH"],
  [n |-> 24, s |-> "SQLITE_FORMAT"],
  [n |-> 25, s |-> "SQLITE_RANGE"],
  [n |-> 26, s |-> "SQLITE_NOTADB"],
  [n |-> 27, s |-> "SQLITE_NOTICE"],
  [n |-> 28, s |-> "SQLITE_WARNING"],
  [n |-> 100, s |-> "SQLITE_ROW"],
  [n |-> 101, s |-> "SQLITE_DONE"],
  [n |-> 266, s |-> "SQLITE IO ERR READ"]}
RrType == {
  [n |-> 1, s |-> "A"],
  [n |-> 2, s |-> "NS"],
  [n |-> 5, s |-> "CNAME"],
  [n |-> 6, s |-> "SOA"],
  [n |-> 12, s |-> "PTR"],
  [n |-> 13, s |-> "HINFO"],
  [n |-> 15, s |-> "MX"],
  [n |-> 16, s |-> "TXT"],
  [n |-> 17, s |-> "RP"],
  [n |-> 18, s |-> "AFSDB"],
  [n |-> 24, s |-> "SIG"],
  [n |-> 25, s |-> "KEY"],
  [n |-> 28, s |-> "AAAA"],
  [n |-> 29, s |-> "LOC"],
  [n |-> 33, s |-> "SRV"],
  [n |-> 35, s |-> "NAPTR"],
  [n |-> 36, s |-> "KX"],
  [n |-> 37, s |-> "CERT"],
  [n |-> 39, s |-> "DNAME"],
  [n |-> 42, s |-> "APL"],
  [n |-> 43, s |-> "DS"],
  [n |-> 44, s |-> "SSHFP"],
  [n |-> 45, s |-> "IPSECKEY"],
  [n |-> 46, s |-> "RRSIG"],
  [n |-> 47, s |-> "NSEC"],
  [n |-> 48, s |-> "DNSKEY"],
  [n |-> 49, s |-> "DHCID"],
  [n |-> 50, s |-> "NSEC3"],
  [n |-> 51, s |-> "NSEC3PARAM"],
  [n |-> 52, s |-> "TLSA"],
  [n |-> 53, s |-> "SMIMEA"],
  [n |-> 55, s |-> "HIP"],
  [n |-> 59, s |-> "CDS"],
  [n |-> 60, s |-> "CDNSKEY"],
  [n |-> 61, s |-> "OPENPGPKEY"],
  [n |-> 62, s |-> "CSYNC"],
  [n |-> 63, s |-> "ZONEMD"],
  [n |-> 64, s |-> "SVCB"],
  [n |-> 65, s |-> "HTTPS"],
  [n |-> 108, s |-> "EUI48"],
  [n |-> 109, s |-> "EUI64"],
  [n |-> 249, s |-> "TKEY"],
  [n |-> 250, s |-> "TSIG"],
  [n |-> 256, s |-> "URI"],
  [n |-> 257, s |-> "CAA"],
  [n |-> 32768, s |-> "TA"],
  [n |-> 32769, s |-> "DLV"]}
OdError == {
  [n |-> 0, s |-> "ODNoError"],
  [n |-> 2, s |-> "Not Found"],
  [n |-> 1000, s |-> "ODErrorSessionLocalOnlyDaemonInUse"],
  [n |-> 1001, s |-> "ODErrorSessionNormalDaemonInUse"],
  [n |-> 1002, s |-> "ODErrorSessionDaemonNotRunning"],
  [n |-> 1003, s |-> "ODErrorSessionDaemonRefused"],
  [n |-> 1100, s |-> "ODErrorSessionProxyCommunicationError"],
  [n |-> 1101, s |-> "ODErrorSessionProxyVersionMismatch"],
  [n |-> 1102, s |-> "ODErrorSessionProxyIPUnreachable"],
  [n |-> 1103, s |-> "ODErrorSessionProxyUnknownHost"],
  [n |-> 2000, s |-> "ODErrorNodeUnknownName"],
  [n |-> 2001, s |-> "ODErrorNodeUnknownType"],
  [n |-> 2002, s |-> "ODErrorNodeDisabled"],
  [n |-> 2100, s |-> "ODErrorNodeConnectionFailed"],
  [n |-> 2200, s |-> "ODErrorNodeUnknownHost"],
  [n |-> 3000, s |-> "ODErrorQuerySynchronize"],
  [n |-> 3100, s |-> "ODErrorQueryInvalidMatchType"],
  [n |-> 3101, s |-> "ODErrorQueryUnsupportedMatchType"],
  [n |-> 3102, s |-> "ODErrorQueryTimeout"],
  [n |-> 4000, s |-> "ODErrorRecordReadOnlyNode"],
  [n |-> 4001, s |-> "ODErrorRecordPermissionError"],
  [n |-> 4100, s |-> "ODErrorRecordParameterError"],
  [n |-> 4101, s |-> "ODErrorRecordInvalidType"],
  [n |-> 4102, s |-> "ODErrorRecordAlreadyExists"],
  [n |-> 4103, s |-> "ODErrorRecordTypeDisabled"],
  [n |-> 4104, s |-> "ODErrorRecordNoLongerExists"],
  [n |-> 4200, s |-> "ODErrorRecordAttributeUnknownType"],
  [n |-> 4201, s |-> "ODErrorRecordAttributeNotFound"],
  [n |-> 4202, s |-> "ODErrorRecordAttributeValueSchemaError"],
  [n |-> 4203, s |-> "ODErrorRecordAttributeValueNotFound"],
  [n |-> 5000, s |-> "ODErrorCredentialsInvalid"],
  [n |-> 5001, s |-> "ODErrorCredentialsInvalidComputer"],
  [n |-> 5100, s |-> "ODErrorCredentialsMethodNotSupported"],
  [n |-> 5101, s |-> "ODErrorCredentialsNotAuthorized"],
  [n |-> 5102, s |-> "ODErrorCredentialsParameterError"],
  [n |-> 5103, s |-> "ODErrorCredentialsOperationFailed"],
  [n |-> 5200, s |-> "ODErrorCredentialsServerUnreachable"],
  [n |-> 5201, s |-> "ODErrorCredentialsServerNotFound"],
  [n |-> 5202, s |-> "ODErrorCredentialsServerError"],
  [n |-> 5203, s |-> "ODErrorCredentialsServerTimeout"],
  [n |-> 5204, s |-> "ODErrorCredentialsContactPrimary"],
  [n |-> 5205, s |-> "ODErrorCredentialsServerCommunicationError"],
  [n |-> 5300, s |-> "ODErrorCredentialsAccountNotFound"],
  [n |-> 5301, s |-> "ODErrorCredentialsAccountDisabled"],
  [n |-> 5302, s |-> "ODErrorCredentialsAccountExpired"],
  [n |-> 5303, s |-> "ODErrorCredentialsAccountInactive"],
  [n |-> 5304, s |-> "ODErrorCredentialsAccountTemporarilyLocked"],
  [n |-> 5305, s |-> "ODErrorCredentialsAccountLocked"],
  [n |-> 5400, s |-> "ODErrorCredentialsPasswordExpired"],
  [n |-> 5401, s |-> "ODErrorCredentialsPasswordChangeRequired"],
  [n |-> 5402, s |-> "ODErrorCredentialsPasswordQualityFailed"],
  [n |-> 5403, s |-> "ODErrorCredentialsPasswordTooShort"],
  [n |-> 5404, s |-> "ODErrorCredentialsPasswordTooLong"],
  [n |-> 5405, s |-> "ODErrorCredentialsPasswordNeedsLetter"],
  [n |-> 5406, s |-> "ODErrorCredentialsPasswordNeedsDigit"],
  [n |-> 5407, s |-> "ODErrorCredentialsPasswordChangeTooSoon"],
  [n |-> 5408, s |-> "ODErrorCredentialsPasswordUnrecoverable"],
  [n |-> 5500, s |-> "ODErrorCredentialsInvalidLogonHours"],
  [n |-> 6000, s |-> "ODErrorPolicyUnsupported"],
  [n |-> 6001, s |-> "ODErrorPolicyOutOfRange"],
  [n |-> 10000, s |-> "ODErrorPluginOperationNotSupported"],
  [n |-> 10001, s |-> "ODErrorPluginError"],
  [n |-> 10002, s |-> "ODErrorDaemonError"],
  [n |-> 10003, s |-> "ODErrorPluginOperationTimeout"]}
MbrType == {
  [n |-> 0, s |-> "UID"],
  [n |-> 1, s |-> "GID"],
  [n |-> 3, s |-> "SID"],
  [n |-> 4, s |-> "Username"],
  [n |-> 5, s |-> "Groupname"],
  [n |-> 6, s |-> "UUID"],
  [n |-> 7, s |-> "GROUP NFS"],
  [n |-> 8, s |-> "USER NFS"],
  [n |-> 10, s |-> "GSS EXPORT NAME"],
  [n |-> 11, s |-> "X509 DN"],
  [n |-> 12, s |-> "KERBEROS"]}
ClAuth == {
  [n |-> 0, s |-> "Not Determined"],
  [n |-> 1, s |-> "Restricted"],
  [n |-> 2, s |-> "Denied"],
  [n |-> 3, s |-> "Authorized Always"],
  [n |-> 4, s |-> "Authorized When In Use"]}
MdnsProtocol == {
  [n |-> 1, s |-> "UDP"],
  [n |-> 2, s |-> "TCP"],
  [n |-> 4, s |-> "HTTPS"]}
MdnsReason == {
  [n |-> 1, s |-> "no-data"],
  [n |-> 2, s |-> "nxdomain"],
  [n |-> 3, s |-> "query-suppressed"],
  [n |-> 4, s |-> "no-dns-service"],
  [n |-> 5, s |-> "server error"]}
=============================================================================
