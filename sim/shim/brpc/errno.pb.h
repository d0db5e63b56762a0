#pragma once
namespace brpc {
enum Errno { ENOSERVICE = 1001, ENOMETHOD = 1002, EREQUEST = 1003, ERPCAUTH = 1004, ETOOMANYFAILS = 1005, EPCHANFINISH = 1006, EBACKUPREQUEST = 1007, ERPCTIMEDOUT = 1008,
  EFAILEDSOCKET = 1009, EHTTP = 1010, EOVERCROWDED = 1011, ERTMPPUBLISHABLE = 1012, EINTERNAL = 2001, ERESPONSE = 2002, ELOGOFF = 2003, ELIMIT = 2004, ECLOSE = 2005 };
}
