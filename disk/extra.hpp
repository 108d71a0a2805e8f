// Operations other than saving and loading objects: the seed file and the log.
#pragma once
#include "simio.hpp"
#include <functional>
#include <sstream>
#include <string>
#include <vector>
void say(const std::string & line);
std::vector<sim::Fault> parse_faults(std::istringstream & in);
std::string guarded(const std::function<void()> & body);
void extra_op(const std::string & kind, std::istringstream & in);
