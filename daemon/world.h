// Building blocks for checks of the whole daemon.
#pragma once
#include "../engine/props.h"
#include "ksim.h"

namespace world {

void enter();                                           // a fresh, empty world in the scratch directory
void conf(const std::string &name, const std::string &text);    // etc/<name>
void unconf(const std::string &name);
std::string with_ids(const std::string &cfg_text, const std::string &ids);      // replaces the [ids] section

ks::Dev keyboard(const std::string &name = "kbd", int product = 1);     // all key codes, LEDs
ks::Dev mouse(const std::string &name = "mouse", int product = 2);      // buttons, x, y, both wheels

struct Lin { int dev, type, code, value; };
// What one of keyd's key codes looks like to applications (dev -1: nothing).
std::vector<Lin> to_linux(int keyd_code, int state);
// The keyd code a Linux key code of a device stands for (0: none).
int from_linux(int linux_code);
const std::vector<int> &linux_codes(int keyd_code);     // inverse

struct Exp { long t; Lin e; };                          // t in ms
// Model trace -> what the virtual devices should receive.
std::vector<Exp> expect(const std::vector<spec::Ev> &trace, bool raw = false);   // raw: with key events which change nothing
std::vector<Exp> observed(bool raw = false);            // ks::out as the same, checking sync reports; fails via exception text
std::string show(const Exp &e);
std::string diff(const std::vector<Exp> &want, const std::vector<Exp> &got);
// Is got an interleaving of the two?
std::string diff2(const std::vector<Exp> &a, const std::vector<Exp> &b, const std::vector<Exp> &got);
std::string sync_errors();                              // every event followed by a sync report
void must_finish(pbt::Ctx &c, ks::End e);               // daemon is still running at the end
inline long us(long ms) { return ks::start_time + ms * 1000; }

} // namespace world
Profile prof_daemon();
void send_msg(ks::Conn *c, int type, const std::string &data);
enum { IPC_SUCCESS_, IPC_FAIL_, IPC_BIND_, IPC_INPUT_, IPC_MACRO_, IPC_RELOAD_, IPC_LISTEN_ };
int reply_type(ks::Conn *c);                            // -1: none
std::string reply_text(ks::Conn *c);
