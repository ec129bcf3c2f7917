// What applications make of an emitted key stream: a US keyboard layout plus keyd's compose table.
#pragma once
#include "spec.h"
#include <map>
#include <string>
#include <vector>

struct Decoder {
	Decoder();
	void key(int code, int pressed);
	std::string text;                 // characters; other keys appear as <C-name>
	bool ok = true; std::string why;  // a malformed stream
	bool held_clean() const { return mods_ == 0 && down_.empty(); }
	static const std::map<std::string, std::string> &compose();      // "000" -> character
	static const std::map<std::string, std::string> &by_char();      // character -> "000"
	static const std::string &compose_error();
private:
	int mods_ = 0;
	std::set<int> down_;
	bool composing_ = false;
	std::string seq_;
};
std::string utf8(uint32_t cp);
std::string repo();
