#include "harness.hpp"
namespace H {
void apiSetConnected(Server* s, D::ConnectionHandler h) { s->SetConnectedHandler(h); }
void apiSetDisconnected(Server* s, D::ConnectionHandler h) { s->SetDisconnectedHandler(h); }
bool apiHasHandlers(Server* s) { return s->GetConnectedHandler() || s->GetDisconnectedHandler(); }
}
