// sockets: the real sources, verified over contracts on the system calls
#include <core/modules/socket_mdlw/src/base_socket.cpp>
#include <core/modules/socket_mdlw/src/data_socket.cpp>
#include <core/modules/socket_mdlw/src/connect_socket.cpp>
#include <core/modules/socket_mdlw/src/server_socket.cpp>
#include <core/modules/socket_mdlw/src/protocol.cpp>
#include <core/modules/socket_mdlw/src/protocol_simple.cpp>
#include <poll.h>
#include <sys/select.h>
using namespace kpsr::socket_mdlw;
typedef std::string S;
extern "C" {
bool cb_scan(std::size_t n);
// user callback of getMessageData
struct Scan { bool operator()(std::size_t n) const { return cb_scan(n); } };
std::size_t c_sizeof_data() { return sizeof(DataSocket); }
std::size_t c_sizeof_server() { return sizeof(ServerSocket); }
std::size_t c_sizeof_connect() { return sizeof(ConnectSocket); }
std::size_t c_sizeof_proto() { return sizeof(ProtocolSimple); }
std::size_t c_sizeof_sp() { return sizeof(std::shared_ptr<DataSocket>); }
std::size_t c_sizeof_un() { return sizeof(sockaddr_un); }
std::size_t c_sizeof_in() { return sizeof(sockaddr_in); }
std::size_t c_off_path() { return __builtin_offsetof(sockaddr_un, sun_path); }
int c_cloexec() { return 0; }
int *a_fd(DataSocket *d) { return &d->socketId; }
void h_ctor(DataSocket *d, int fd) { new (d) DataSocket(fd); }
void h_dtor(DataSocket *d) { d->~DataSocket(); }
void h_close(DataSocket *d) { d->close(); }
void h_movector(DataSocket *d, DataSocket *o) { new (d) DataSocket(std::move(*o)); }
void h_moveassign(DataSocket *d, DataSocket *o) { *d = std::move(*o); }
void h_swap(DataSocket *d, DataSocket *o) { d->swap(*o); }
void h_put(DataSocket *d, const char *b, std::size_t n) { d->putMessageData(b, n); }
void h_putclose(DataSocket *d) { d->putMessageClose(); }
std::size_t h_get(DataSocket *d, char *b, std::size_t n) { return d->getMessageData(b, n, Scan()); }
void h_server_port(ServerSocket *s, int port) { new (s) ServerSocket(port); }
void h_server_path(ServerSocket *s, const S &p) { new (s) ServerSocket(p); }
void h_connect_port(ConnectSocket *s, const S &h, int port) { new (s) ConnectSocket(h, port); }
void h_connect_path(ConnectSocket *s, const S &p) { new (s) ConnectSocket(p); }
void h_server_dtor(ServerSocket *s) { s->~ServerSocket(); }
void h_connect_dtor(ConnectSocket *s) { s->~ConnectSocket(); }
void h_accept(ServerSocket *s, std::shared_ptr<DataSocket> *r, int t) { new (r) std::shared_ptr<DataSocket>(s->accept(t)); }
DataSocket *h_spget(std::shared_ptr<DataSocket> *r) { return r->get(); }
void h_sprel(std::shared_ptr<DataSocket> *r) { r->~shared_ptr(); }
void h_proto(ProtocolSimple *p, std::shared_ptr<DataSocket> *s, DataSocket *d) { new (s) std::shared_ptr<DataSocket>(d, [](DataSocket *) {}); new (p) ProtocolSimple(*s); }
void h_send(ProtocolSimple *p, const S &m) { static_cast<Protocol *>(p)->sendMessage(m); }
void h_recv(ProtocolSimple *p, S &m) { static_cast<Protocol *>(p)->recvMessage(m); }
}
