//@ src: core/websocket/*.cpp core/http/*.cpp core/network/tcp/connection.cpp core/network/*.cpp core/polyfill/*.cpp core/crypto/*.cpp core/encoding/*.cpp core/utils/*.cpp core/server/worker.cpp core/server/errorpage.cpp core/html/renderer.cpp core/json/*.cpp core/sse/*.cpp
//@ exclude: core/compression/*.cpp core/html/templatemap.cpp
//@ stubs: stub_net stub_random stub_compress threads
//@ nojoin: 1
//@ quick: -DN=11 -DCUTS=0 time=300
//@ thorough: -DN=15 -DCUTS=1 time=850
//@ flags: -fno-inline
//@ bounds: every text of up to N (11/15) bytes sent after the handshake, all byte values, in one piece or (thorough, up to 9 bytes) cut in two anywhere, with the size limit at 25 MB or 100 bytes
//@ reach: delivered violated incomplete toobig
#include "ws_bytes.h"
