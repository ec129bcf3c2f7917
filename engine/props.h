#pragma once
#include "gen.h"
typedef std::function<bool(const spec::Model &)> NT;
bool lines_ok(const std::string &text);
bool st(const spec::Model &m, const char *k);
void differential(pbt::Ctx &c, Profile p, const NT &nt);
void weigh(std::vector<int> &w, std::initializer_list<std::pair<spec::Kind, int>> l);
void everything(std::vector<int> &w, int n = 4);
Profile prof_all();
Profile prof_layers();
#define ST(k) st(m, k)
std::string mutate(pbt::Src &s, std::string t, int n);     // dictionary and byte mutations of a text
bool plain_text(const std::string &w);                      // can mean nothing but text in a macro
std::string gen_char(pbt::Src &s, bool *foreign);           // a character; *foreign: one keyd cannot type
void warm_chars();
