-------------------------------- MODULE Ascii --------------------------------
(* Texts as byte strings *)
EXTENDS Sequences
sGET == <<71, 69, 84>>  \* 'GET'
sPOST == <<80, 79, 83, 84>>  \* 'POST'
sHTTP11 == <<72, 84, 84, 80, 47, 49, 46, 49>>  \* 'HTTP/1.1'
sHTTP10 == <<72, 84, 84, 80, 47, 49, 46, 48>>  \* 'HTTP/1.0'
sContentLength == <<99, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104>>  \* 'content-length'
sContentType == <<99, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101>>  \* 'content-type'
sConnection == <<99, 111, 110, 110, 101, 99, 116, 105, 111, 110>>  \* 'connection'
sClose == <<99, 108, 111, 115, 101>>  \* 'close'
sTransferEncoding == <<116, 114, 97, 110, 115, 102, 101, 114, 45, 101, 110, 99, 111, 100, 105, 110, 103>>  \* 'transfer-encoding'
sHost == <<104, 111, 115, 116>>  \* 'host'
sHttpPrefix == <<72, 84, 84, 80, 47, 49, 46, 49, 32>>  \* 'HTTP/1.1 '
sCRLFCRLF == <<13, 10, 13, 10>>  \* '\r\n\r\n'
sTrue == <<116, 114, 117, 101>>  \* 'true'
sFalse == <<102, 97, 108, 115, 101>>  \* 'false'
sNull == <<110, 117, 108, 108>>  \* 'null'
sFormType == <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 45, 119, 119, 119, 45, 102, 111, 114, 109, 45, 117, 114, 108, 101, 110, 99, 111, 100, 101, 100>>  \* 'application/x-www-form-urlencoded'
sJsonType == <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 106, 115, 111, 110>>  \* 'application/json'
sNumber == <<110, 117, 109, 98, 101, 114>>  \* 'number'
sString == <<115, 116, 114, 105, 110, 103>>  \* 'string'
sBoolean == <<98, 111, 111, 108, 101, 97, 110>>  \* 'boolean'
sObject == <<111, 98, 106, 101, 99, 116>>  \* 'object'
sType == <<116, 121, 112, 101>>  \* 'type'
sVersion == <<118, 101, 114, 115, 105, 111, 110>>  \* 'version'
sServicename == <<115, 101, 114, 118, 105, 99, 101, 110, 97, 109, 101>>  \* 'servicename'
sUrl == <<117, 114, 108>>  \* 'url'
sTypes == <<116, 121, 112, 101, 115>>  \* 'types'
sMethods == <<109, 101, 116, 104, 111, 100, 115>>  \* 'methods'
sParams == <<112, 97, 114, 97, 109, 115>>  \* 'params'
sDocLines == <<100, 111, 99, 95, 108, 105, 110, 101, 115>>  \* 'doc_lines'
sRetInfo == <<114, 101, 116, 95, 105, 110, 102, 111>>  \* 'ret_info'
sDefOrder == <<100, 101, 102, 95, 111, 114, 100, 101, 114>>  \* 'def_order'
sOptional == <<111, 112, 116, 105, 111, 110, 97, 108>>  \* 'optional'
sWsp == <<106, 115, 111, 110, 119, 115, 112, 47, 100, 101, 115, 99, 114, 105, 112, 116, 105, 111, 110>>  \* 'jsonwsp/description'
s10 == <<49, 46, 48>>  \* '1.0'
=============================================================================
