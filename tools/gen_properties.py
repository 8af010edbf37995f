#!/usr/bin/env python3
# Source of properties.jsonl (kept as code so that it is easy to edit).  Usage: tools/gen_properties.py > properties.jsonl
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(zip(("name","meaning","where"),s)) for s in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Base64 encodes per RFC 4648, round-trips, and decodes any text safely",
 "Encoding any byte sequence gives its RFC 4648 base64 text (standard alphabet, '=' padding), and decoding that text, with or without its padding, gives back exactly the original bytes. Decoding a text that contains any character other than the alphabet or '=' is reported as an error, and no text of any length, the empty one included, makes the decoder touch memory outside its buffers.",
 ["inputs"],"every byte sequence (encode) and every text (decode) within the length bound",
 "tests/encoding checks one fixed string each way; lengths mod 3, unpadded, empty and non-alphabet inputs are never tried",
 ["core/encoding/base64.cpp"],[("toBase64/fromBase64","core/encoding/base64.cpp")],observe=["Encoding::toBase64","Encoding::fromBase64"])
p("C02","Hex text maps one-to-one to bytes and bad hex is rejected",
 "Encoding bytes to hex gives two upper-case digits per byte, most significant first; decoding hex text in either letter case gives exactly those bytes back. Text of odd length or holding any character that is not a hexadecimal digit is reported as an error, never decoded to some value.",
 ["inputs"],"every byte sequence and every text within the length bound","tests/encoding decodes one valid fixed string; no invalid character is tried",
 ["core/encoding/hex.cpp"],[("toHex/fromHex/hexToByte","core/encoding/hex.cpp")],observe=["Encoding::toHex","Encoding::fromHex","Encoding::hexToByte","Encoding::byteToHex"])
p("C03","URI component encoding is reversible and malformed escapes are rejected",
 "Decoding the encoded form of any byte string gives the string back, and the encoded form contains none of the URI delimiters (such as '/', '?', '#', '&', '=', '+', quotes or space) unescaped, every escape being '%' and two upper-case hex digits of that very byte. When decoding, characters other than '%' are copied unchanged, and a '%' not followed by two hex digits is reported as an error.",
 ["inputs"],"every byte string within the length bound","one fixed sample string in tests/encoding",
 ["core/encoding/url.cpp"],[("encodeURIComponent/decodeURIComponent","core/encoding/url.cpp")],observe=["Encoding::encodeURIComponent","Encoding::decodeURIComponent"])
p("C04","SHA-1 digest is the standard one however the data is fed",
 "The digest is the FIPS 180-4 SHA-1 of the concatenation of everything fed since construction or the last reset, independent of how the data was split over update calls and of whether it came as text or bytes. The message length, including lengths around the 56 and 64 byte block boundaries, never changes this.",
 ["inputs","histories"],"every message length and every split of it over update calls, within the length bound","tests/encoding hashes one short fixed string; no block boundary or split is tried",
 ["core/crypto/sha1.cpp"],[("SHA1::update / digest padding","core/crypto/sha1.cpp")],observe=["Crypto::SHA1"])
p("C05","Byte-order conversion and short ids are exact for every value",
 "Converting any 16, 32 or 64 bit signed or unsigned value to network byte order and back gives the same value, and the converted value's bytes in memory are big-endian; the storage conversion leaves its bytes little-endian. A short id built from a number keeps that number and prints it as eight lower-case hex digits that identify it uniquely.",
 ["inputs"],"all values of all six integer types","no test converts anything; ids are only generated, never compared",
 ["core/utils/byteswap.cpp","core/crypto/uid.cpp"],[("Bits::netwnormx/storenormx","core/utils/byteswap.cpp"),("ShortID","core/crypto/uid.cpp")],observe=["Bits::netwnormx","Bits::storenormx","Crypto::ShortID"])
p("C06","String helpers do what their documentation says for every string",
 "Prefix, suffix and substring tests are true exactly when the text starts with, ends with or contains the pattern; trimming removes exactly the leading and trailing space, tab, CR and LF characters; case conversion changes exactly the ASCII letters (title case: a capital at the start and after a space or dash, lower case elsewhere). Splitting returns the pieces between separators in order (only an empty piece after the last separator is left out), joining puts the separator between every two pieces, and replacing one or all occurrences rewrites the non-overlapping occurrences from left to right and always terminates.",
 ["inputs"],"every pair or triple of strings within the length bounds, the empty string included","tests/strings asserts nothing beyond not throwing",
 ["core/polyfill/strings.cpp"],[("Strings::*","core/polyfill/strings.cpp")],observe=["Lambda::Strings"])
p("C07","Header containers behave as case-insensitive multi-value maps",
 "After any sequence of set, append and delete operations, looking a key up in any letter case yields its values in insertion order (set replaces all of them, append adds one, delete removes the key), and presence, size and the entry list agree with that. Containers built from a list, copied, moved or assigned hold the same entries as a map built by appending each pair (a container built from a list drops the blanks around its keys and values).",
 ["inputs","histories"],"all operation sequences with arbitrary keys and values within the bounds","tests/headers performs one fixed sequence with one spelling of each key",
 ["core/http/kvcontainer.cpp"],[("KVContainer","core/http/kvcontainer.cpp")],observe=["HTTP::Headers"])
p("C08","Cookies: what was received or set is what is read and sent",
 "A cookie header is read as its name=value pairs with a non-empty name and value, the blanks around them removed, the last of equal names counting, and every cookie read from it or set afterwards is found under its name in any letter case with its exact value. Every cookie set or deleted since, and no other, yields exactly one Set-Cookie value, carrying the last value and attributes given (deletion: an empty value and an expiry date in the past); copies, moves and assignments keep all of this.",
 ["inputs","histories"],"all cookie headers and all set/delete sequences within the bounds","tests/cookie checks one header and one serialization",
 ["core/http/cookies.cpp"],[("Cookies","core/http/cookies.cpp")],state=[("m_set_queue","pending Set-Cookie entries","core/http/http.hpp")],observe=["HTTP::Cookies","HTTP::Response::setCookies","HTTP::Request::getCookies"])
p("C09","URLs are taken apart exactly and serialize back to the same URL",
 "For every URL scheme://[user[:password]@]host[:port]/path[?query][#fragment] with a host without colons and a fragment that is not empty, the parsed parts are exactly those substrings, and serializing a parsed URL that has a host and whose query pairs are distinct and in key order gives an equivalent URL that parses to the same parts. A text that is neither an absolute URL nor a path, or has an empty host, is reported as an error and never crashes the parser.",
 ["inputs"],"every text within the length bound, and every combination of parts within bounds","tests/url parses a few fixed URLs and asserts nothing",
 ["core/http/url.cpp"],[("URL::parse/href","core/http/url.cpp")],observe=["HTTP::URL"])
p("C10","Query parameters are read and written completely",
 "Parsing a query string, with or without a leading '?', yields every key=value pair with non-empty key and value, found under the key in any letter case with the exact value, even when a value contains '?' or further '='; pairs lacking a key or value are ignored, blanks around keys and values dropped, and the last of equal keys counts. Serializing parameters whose keys have no '?' and parsing the result yields the same parameters.",
 ["inputs"],"every query string within the length bound","tests/url prints results of fixed queries",
 ["core/http/urlsearchparams.cpp","core/http/kvcontainer.cpp"],[("URLSearchParams","core/http/urlsearchparams.cpp")],observe=["HTTP::URLSearchParams"])
p("C11","Basic credentials are decoded exactly or not at all",
 "An Authorization value 'Basic <base64 of user:password>' (scheme name in any letter case) yields the user up to the first colon and the password after it, which may itself contain colons. Any other value yields no credentials; none makes the parser crash or read out of bounds.",
 ["inputs"],"every user/password pair and every header text within the length bounds","no test calls the credential parser",
 ["core/http/auth.cpp"],[("parseBasicAuth","core/http/auth.cpp")],observe=["HTTP::Auth::parseBasicAuth"])
p("C12","Methods and statuses are recognised exactly",
 "A method name is accepted exactly when it is one of the nine known methods in any letter case (surrounding blanks ignored), prints as its canonical upper-case name and equals that name in any letter case; any other text is rejected with an error. A status built from a code keeps the code, has that code's reason text and the class given by its hundreds digit; unknown codes are rejected.",
 ["inputs"],"every method text within the length bound and every 32-bit status code","the tests construct a handful of fixed methods and codes",
 ["core/http/method.cpp","core/http/status.cpp"],[("Method","core/http/method.cpp"),("Status","core/http/status.cpp")],observe=["HTTP::Method","HTTP::Status"])
p("C13","Requests are delivered intact however the bytes arrive",
 "For every sequence of well-formed requests (bodies announced by content-length) sent on one connection, and however the network splits or joins the bytes (headers cut anywhere, bodies arriving in several pieces, several requests in one piece), the server delivers exactly those requests in order: same method, path, query, header values and body bytes. No byte of one request ever becomes part of another, and none is lost.",
 ["inputs","schedules"],"every request sequence and every segmentation of its bytes within the bounds","no transport test exists; the instance test only opens and closes a server",
 ["core/http/transport_v1.cpp","core/network/tcp/connection.cpp"],[("TransportContextV1::awaitNext","core/http/transport_v1.cpp")],state=[("m_readbuff","received bytes not yet consumed","core/http/transport_impl.hpp")],observe=["TransportContext::awaitNext/nextRequest"])
p("C14","Malformed or oversized requests never reach the application",
 "Whatever bytes a client sends, the server never crashes, never reads outside its buffers and never delivers a request with a truncated body. A request whose header lines lack a ':' or a name is refused with status 400 and one whose header and body together exceed the configured maximum is refused with 413; an unknown method, a missing request target a content length that is not a decimal number, conflicting content lengths or a transfer encoding (none is supported) is never delivered.",
 ["inputs","fault_sequences"],"every byte stream within the bound, every content-length text and every configured maximum","no test sends malformed or oversized requests",
 ["core/http/transport_v1.cpp"],[("TransportContextV1::awaitNext limits","core/http/transport_v1.cpp"),("ProtocolError","core/http/transport.hpp")],observe=["TransportContext::awaitNext","bytes written to the connection"])
p("C15","Responses are framed so the client reads exactly what was returned",
 "Every response is written as one status line with the response's code and text, one line per header value the application set, an empty line, and then exactly the body bytes, with the content-length header equal to the number of body bytes sent. Date, server, request id and connection headers are always present exactly once.",
 ["inputs"],"every status, header set and body within the bounds","no test looks at the bytes of a response",
 ["core/http/transport_v1.cpp"],[("TransportContextV1::respond","core/http/transport_v1.cpp")],observe=["bytes written to the connection"])
p("C16","A response is compressed only as its own request accepts",
 "A response carries a content-encoding only when compression is enabled, its own request's Accept-Encoding lists that encoding and the content is text-like (or untyped); it then names the encoding really applied and the body sent is that encoding of the application's body. Otherwise the body is sent unchanged; preferences of earlier requests on the connection play no role.",
 ["inputs","histories","configurations"],"every Accept-Encoding and content type within the bounds, over sequences of requests on one connection","no test negotiates an encoding",
 ["core/http/transport_v1.cpp"],[("m_compress selection and applyEncoding","core/http/transport_v1.cpp")],state=[("m_compress","encoding accepted by the current request","core/http/transport_impl.hpp")],observe=["bytes written to the connection"])
p("C17","Connections persist or close exactly as announced",
 "After each response the connection is open for another request if and only if the response announced keep-alive: a connection header set by the application's response decides, and without one a request asking to close (in any letter case) or disabled connection reuse gives 'connection: close' and a closed connection, while otherwise the connection stays usable. Once a closing response has been sent, nothing more is read from or written to the connection.",
 ["inputs","histories","configurations"],"every Connection header text and every sequence of requests within the bounds, with reuse on and off","no test inspects connection persistence",
 ["core/http/transport_v1.cpp"],[("m_keepalive handling","core/http/transport_v1.cpp")],state=[("m_keepalive","persistence decision","core/http/transport_impl.hpp")],observe=["connection header and socket state"])
p("C18","Every request gets exactly one response, whatever the handler does",
 "For every sequence of requests on a connection the worker answers each with exactly one response in order: the handler's response when it returns one, status 500 when it throws anything or returns nothing, and the upgrade error's status with the connection closed when a protocol switch is refused. No exception, network failure or disconnect escapes the worker, and, apart from the one refusal of a malformed request, no response is sent for a request that was never delivered.",
 ["inputs","fault_sequences","histories"],"every sequence of handler outcomes and network events within the bounds","no test exercises the connection worker's error paths",
 ["core/server/worker.cpp","core/server/errorpage.cpp"],[("connectionWorker","core/server/worker.cpp")],observe=["bytes written to the connection"])
p("C19","TCP connections move bytes faithfully and close exactly once",
 "A read returns exactly the bytes the network delivered (never more than asked for), an empty result on end of stream or timeout, and an error otherwise; a write that returns normally has handed over every byte in order, and a peer that disappeared causes an error, never the death of the process. The socket is closed exactly once over every sequence of operations, moves and destruction, nothing is done with it after closing, and configured timeouts reach the operating system with millisecond precision.",
 ["fault_sequences","histories","inputs"],"every sequence of socket results (partial, error, end of stream, timeout) and operations within the bounds","tests/tcp is not even run; errors are never injected",
 ["core/network/tcp/connection.cpp"],[("Connection","core/network/tcp/connection.cpp")],state=[("hSocket","socket handle, -1 when closed","core/network/tcp/connection.hpp")],observe=["system calls made"])
p("C20","The listening service survives failures and honours its limits",
 "Failing to set up the listening socket is reported as an error and leaks no socket; each accepted connection carries the peer's address, the service port and the configured timeouts. A connection attempt that fails while being accepted never ends the service while it is active, the listening socket is closed exactly once when stopped or destroyed, and with a configured maximum no more than that many connections are served at the same time (0 means no limit).",
 ["fault_sequences","histories"],"every sequence of system call results within the bounds","instance_restart only opens and closes one instance without faults",
 ["core/network/tcp/listener.cpp","core/server/instance.cpp"],[("ListenSocket","core/network/tcp/listener.cpp"),("LambdaInstance service loop","core/server/instance.cpp")],observe=["system calls made"])
p("C21","Websocket handshakes are accepted exactly when valid",
 "A request is upgraded to a websocket only if it is a GET with 'Upgrade: websocket' (any letter case) and a non-empty key, and nothing but the request has been received; the 101 answer then carries the RFC 6455 accept value of that key. Anything else is refused with an error status and no upgrade, 405 for a wrong method and 400 otherwise.",
 ["inputs"],"every method, Upgrade value and key within the bounds","no websocket test exists",
 ["core/websocket/websocket.cpp"],[("WebsocketContext::WebsocketContext","core/websocket/websocket.cpp")],observe=["bytes written to the connection","thrown upgrade errors"])
p("C22","Websocket messages arrive intact however frames are split or segmented",
 "For every sequence of client data, ping and close frames and however the network segments their bytes, the application receives every data frame's payload unmasked with that frame's own mask, in order and exactly once, marked binary or text as its message is and partial exactly when its frame is not the last of its message; pings are answered with a pong of the same payload, even between fragments of a message. No frame sequence or segmentation makes the server read out of bounds or crash.",
 ["inputs","schedules"],"every frame sequence, mask, payload and segmentation within the bounds","no websocket test exists",
 ["core/websocket/transport.cpp"],[("WebsocketContext::asyncWorker","core/websocket/transport.cpp"),("parseFrameHeader","core/websocket/transport.cpp")],observe=["WebsocketContext::nextMessage","bytes written to the connection"])
p("C23","Websocket frames sent are well formed and protocol violations close the socket",
 "Every message sent is one frame with the shortest length form, the right opcode and final bit, no mask and the exact payload, and parsing a frame header gives back the length, mask, opcode and final bit it was written with, for every 63-bit length. An unmasked client frame, an unknown opcode or a frame above the size limit makes the server send one close frame with the matching reason and close the connection, and nothing is sent after a close frame.",
 ["inputs"],"every message within the bound, every length field value and every first frame header","no websocket test exists",
 ["core/websocket/transport.cpp","core/websocket/websocket.cpp"],[("serializeFrameHeader/serializeMessage","core/websocket/transport.cpp"),("WebsocketContext::close","core/websocket/websocket.cpp")],observe=["bytes written to the connection"])
p("C24","Server-sent events reach the client as pushed",
 "For every event whose type and id hold no line breaks, a client that parses the stream by the event-stream rules receives exactly one event with the same type, id, retry value and data, including data that contains line breaks (each of them read as one line break, as those rules say). Pushing to a disconnected client is reported or closes the stream but never crashes, and closing sends a final close event once.",
 ["inputs","fault_sequences"],"every event content within the bounds and every network result","no event-stream test exists",
 ["core/sse/writer.cpp"],[("SSE::Writer::push","core/sse/writer.cpp")],observe=["bytes written to the connection"])
p("C25","JSON values survive serialization and parsing unchanged",
 "Parsing the serialized form of any value built from null, booleans, 32-bit integers, strings, arrays and maps gives an equal value: every string byte, every integer including negative ones, every nesting and the empty array and map are preserved. The serialized form is valid JSON with strings escaped by the JSON rules.",
 ["inputs"],"every value within the size and nesting bounds","tests/json prints results of fixed texts and asserts nothing",
 ["core/json/stringify.cpp","core/json/parse.cpp","core/json/property.cpp"],[("JSON::stringify","core/json/stringify.cpp"),("JSON::parse","core/json/parse.cpp")],observe=["JSON::parse","JSON::stringify"])
p("C26","Parsing arbitrary JSON text is safe and values copy independently",
 "Parsing any text returns a value or reports an error; it never crashes, hangs or reads outside the text. Copying, moving, assigning (also to itself) and destroying values never shares, leaks or double-frees storage, and reading a value as a type it does not have is reported as an error.",
 ["inputs","histories"],"every text within the length bound and every sequence of copies and assignments within bounds","tests feed a few fixed texts",
 ["core/json/parse.cpp","core/json/property.cpp"],[("JSON::parse","core/json/parse.cpp"),("Property","core/json/property.cpp")],observe=["JSON::parse","JSON::Property"])
p("C27","Template rendering substitutes exactly the placeholders",
 "Rendering replaces every '{{ name }}' placeholder (blanks around the name optional) by the property's value, or by nothing if it is not defined, and copies every other part of the template unchanged; substituted values are never rescanned for placeholders. Rendering any template terminates without reading out of bounds.",
 ["inputs"],"every template and property set within the length bounds","no template test exists",
 ["core/html/renderer.cpp"],[("HTML::renderTemplate","core/html/renderer.cpp")],observe=["HTML::renderTemplate"])
p("C28","The static server never serves anything outside its root and never crashes",
 "For every request path, the only files the static server opens or serves lie inside the configured root directory, however the path combines '..', '.', slashes, backslashes and other bytes. A path naming an existing regular file is answered with that file's bytes and the type of its extension, a directory (named with a final slash, or without a dot in its last segment) with its index file, anything else and a file that cannot be read with 404, and no path or file system error crashes the server.",
 ["inputs","fault_sequences"],"every request path within the length bound and every file system answer","no static server test exists",
 ["extra/staticserver/staticserver.cpp"],[("flattenPathName/resolvePath/serve","extra/staticserver/staticserver.cpp")],observe=["paths passed to the file system","StaticServer::serve"])
p("C29","The key-value storage is a map that survives reopening",
 "After any sequence of set, remove and clear operations every key reads back its last value, absent keys read as missing, and the size is the number of distinct keys. Opening the same file again after the storage was closed yields exactly the same contents, for keys and values of arbitrary bytes including empty ones; a key too long to be recorded is refused with an error.",
 ["inputs","histories"],"every operation sequence with arbitrary keys and values within the bounds, over several reopenings","tests/storage writes and reads a few fixed items",
 ["extra/kvstorage/driver.cpp","extra/kvstorage/interface.cpp"],[("Driver","extra/kvstorage/driver.cpp"),("StorageInterface","extra/kvstorage/interface.cpp")],observe=["LocalStorage","database file bytes"])
p("C30","Interrupted writes and damaged storage files are handled safely",
 "If the process dies at any point between two operations or inside one, reopening the file either yields the contents as they were before or after the interrupted operation, or reports an error without altering the file. A change whose record cannot be written is reported as an error. Opening a file that is not a database or is damaged reports an error, never crashes and leaves the file's bytes as they were.",
 ["crash_points","inputs"],"every truncation point of the log written by every operation sequence, and every file content, within the bounds","no test interrupts a write or opens a damaged file",
 ["extra/kvstorage/driver.cpp"],[("Driver::Driver log replay","extra/kvstorage/driver.cpp")],observe=["database file bytes after each step"])
p("C31","Concurrent use of the storage loses and corrupts nothing",
 "When several threads use one storage at the same time, every operation takes effect as if they ran one after another in some order, in memory as well as in the file, and no two threads ever access the same data unsynchronised.",
 ["schedules"],"every interleaving of two or three threads' operations within the bounds","tests use the storage from one thread",
 ["extra/kvstorage/interface.cpp"],[("mtlock","extra/kvstorage/kvstorage.hpp")],observe=["LocalStorage"])
p("C32","The virtual filesystem and its statistics stay consistent",
 "After any sequence of writes, removals and renames each path (in any letter case) reads back the content last written to it, a rename moves the content to the new name (renaming a file to its own name keeps it, renaming a missing file is an error that changes nothing), and listings and file info report each existing file once with its true size and times. The reported number of files and total size (names plus contents) always equal those of the files present.",
 ["inputs","histories"],"every operation sequence with arbitrary names and contents within the bounds","tests/vfs (flaky, not in the stable set) writes a few files once",
 ["extra/vfs/interface.cpp"],[("VFS::Interface","extra/vfs/interface.cpp")],state=[("m_info","file count and total size","extra/vfs/vfs.hpp")],observe=["VirtualFilesystem"])
p("C33","Snapshots restore exactly the files that were saved",
 "Saving a snapshot and loading it into an empty filesystem restores every file with the same name, bytes and modification time, for names and contents of every length (empty files, lengths around the 100-character name field and around multiples of 512 included) and for arbitrary name bytes other than NUL. A snapshot that cannot be written, or whose extension is not a supported one, is reported as an error. The archive is a valid ustar stream: each entry's data is padded to the next 512-byte boundary and each header's checksum is right.",
 ["inputs"],"every file set with symbolic names, sizes and contents within the bounds","tests/vfs is not run; it saves one fixed archive",
 ["extra/vfs/format_tar.cpp","extra/vfs/interface.cpp"],[("serializeHeader/parseHeader/getPaddingSize","extra/vfs/format_tar.cpp")],observe=["VirtualFilesystem::saveSnapshot/loadSnapshot","archive bytes"])
p("C34","Loading a damaged or hostile archive never crashes",
 "Loading a snapshot from a file of arbitrary content either succeeds or reports an error; it never crashes, hangs or reads outside its buffers. An archive cut before its end-of-archive block is always an error, and one with a wrong header checksum is never loaded as if it were complete up to that entry's data.",
 ["inputs","crash_points"],"every archive header content and every truncation point within the bounds","no test loads a damaged archive",
 ["extra/vfs/format_tar.cpp"],[("importArchive/parseHeader","extra/vfs/format_tar.cpp")],observe=["VirtualFilesystem::loadSnapshot"])
p("C35","The snapshot queue hands over every item exactly once",
 "However producer and consumer threads interleave, every item pushed before closing is taken out exactly once and in order, waiting ends once the queue is closed or the watched task has ended, and no two threads access the queue's data unsynchronised.",
 ["schedules"],"every interleaving of one producer and one consumer within the bounds","tests/vfs is flaky and samples a few schedules",
 ["extra/vfs/syncqueue.cpp","extra/vfs/formats.hpp"],[("SyncQueue","extra/vfs/syncqueue.cpp")],observe=["SyncQueue"])
p("C36","Compression wrappers feed and drain their codec completely",
 "For every input length, including those at the internal chunk boundaries, and every way the codec splits its work over calls, compressing passes the whole input to the codec and returns its complete output, decompressing returns the complete decoded data or an error, and truncated or corrupt data, or data behind the end of a stream handed to a one-shot function, is always an error. Codec state is released exactly once with the matching call on every path, errors included.",
 ["inputs","fault_sequences"],"every input length near the chunk boundaries and every contract-conforming sequence of codec results within the bounds","tests/zlib and tests/brotli round-trip one short buffer, far below one chunk",
 ["core/compression/zlib_oneshot.cpp","core/compression/zlib_stream_compress.cpp","core/compression/zlib_stream_decompress.cpp","core/compression/brotli.cpp"],[("chunk loops","core/compression/*.cpp")],observe=["Compress::*","calls made to zlib and brotli"])
p("C37","Error pages carry the status and message in the chosen format",
 "For every status, message and page type the rendered error response has that status, the content type of the chosen format, and a body containing the message: as plain text, as a valid JSON object whose fields parse back to the status text and the exact message, or in the HTML page in place of its placeholders.",
 ["inputs","configurations"],"every message text within the bound, every known status, all three page types","no test renders an error page",
 ["core/server/errorpage.cpp"],[("Pages::renderErrorPage","core/server/errorpage.cpp")],observe=["rendered response"])
p("C38","Media types are looked up by the file's real extension",
 "The media type of a file name is the one registered for the text after its last dot, and application/octet-stream when that is not registered; looking up the extension of a registered media type yields an extension of that type, and 'bin' otherwise.",
 ["inputs"],"every file name within the length bound","tests never look a type up",
 ["core/polyfill/mimetype.cpp"],[("getExtMimetype/getMimetypeExt","core/polyfill/mimetype.cpp")],observe=["Content::getExtMimetype","Content::getMimetypeExt"])
p("C39","Dates are the moments they stand for",
 "A date made from a timestamp, or from the current time, gives back that timestamp, its UTC calendar fields (months from 0, years from 1900, day of the month), and its text in the formats of HTTP headers ('Wdy, DD Mon YYYY HH:MM:SS GMT'), of the readable form ('DD Mon YYYY HH:MM:SS') and of the day ('Wdy, DD Mon YYYY'), always in UTC whatever the time zone of the system; copies are equal.",
 ["inputs"],"every second of the years within the bound","no test makes a date",
 ["core/polyfill/date.cpp"],[("Date","core/polyfill/date.cpp")],observe=["Date"])
p("C40","Log messages come out whole",
 "Every message given to the log is written once, to the stream asked for, as its non-empty entries in order, joined by single blanks and ended by one line break; a message with nothing in it writes nothing. Numbers are written in full, booleans as words. However threads interleave, no message is mixed with another, lost or reordered with others of its thread to that stream.",
 ["inputs","schedules"],"every combination of entries and every interleaving of two threads within the bounds","tests print single messages for a person to read",
 ["core/utils/syncout.cpp","core/utils/utils.hpp"],[("WrapperImpl","core/utils/syncout.cpp")],state=[("m_write_mtx","serializes writes","core/utils/utils.hpp")],observe=["syncout.log","syncout.error"])
p("C41","Idle websockets are kept exactly while the client answers pings",
 "A websocket left idle gets a ping every five seconds, whatever the application is doing meanwhile and whether or not part of a frame has arrived. A client that answers them is kept connected and can be sent to and received from however long it is idle. One that stops answering is dropped with a 'protocol error' close, not before fifteen seconds after its last answer and at most ten seconds later, and a waiting application is told; an answer with other content than the ping's closes the connection the same way.",
 ["histories","fault_sequences"],"every timing of answers and messages within the bounds, in virtual time","no test opens a websocket",
 ["core/websocket/transport.cpp","core/websocket/websocket.cpp"],[("asyncWorker: lastPing/lastPingResponse","core/websocket/transport.cpp")],observe=["frames sent","WebsocketContext::awaitMessage"])
p("C42","Stopping the service ends everything it started and cuts nothing short",
 "When a service that keeps a thread list is stopped, by shutdown and wait or by destruction, from any thread and at any moment, it stops listening, lets every handler that runs finish, sends each response it has begun in full, closes websockets with 'going away' and ends event streams, and returns within the receive timeout of an idle client; afterwards no thread of it is left, no handler runs or starts, each socket is closed exactly once, and no two of its threads access shared data without synchronisation.",
 ["schedules","histories"],"every state of the clients, moment and way of stopping and every interleaving within the bounds","tests/instance_restart restarts an instance nobody is connected to",
 ["core/server/instance.cpp","core/server/worker.cpp","core/server/worker.hpp"],[("terminate/awaitFinished","core/server/instance.cpp"),("shutdownFlag","core/server/worker.hpp")],observe=["LambdaInstance","client connections"])
p("C43","Connections served at the same time do not affect each other",
 "However the threads of two connections interleave, each client gets exactly the responses it would get if it were alone (apart from the request ids, which tell all requests apart), and the library's code on the way from request to response - parsing, cookies, credentials, JSON, digests, encodings, dates, templates, compression, error pages - shares no unsynchronised data between threads.",
 ["schedules"],"every pair of request kinds and every interleaving within the bounds","tests make one request at a time or none",
 ["core/server/worker.cpp","core/http/transport_v1.cpp","core/crypto/uid.cpp"],[("connectionWorker","core/server/worker.cpp"),("rng_gen","core/crypto/uid.cpp")],observe=["responses"])
for x in P: print(json.dumps(x))
