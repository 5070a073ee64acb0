#pragma once
#include <errno.h>
#include <locale>
#include <map>
#include <string>
struct HostState {
	std::map<std::string, std::string> v;
	std::locale loc;
};
void host_init();             // in the child: streams to memory, a random sequence of the host's own
void host_apply(uint64_t h);  // the host has set up its process in some way of its own
void host_before(uint64_t h, int opid);
HostState host_state();
std::string host_diff(const HostState &a, const HostState &b);
