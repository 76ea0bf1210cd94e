// shared prologue of the demonstrations
#pragma once
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include <vector>
#include <unistd.h>
#include <ostream>
static std::ostream demo_null(nullptr);
#define STDCOUT(args) (demo_null << args)
#define STDCOUTL(args) (STDCOUT(args) << "\n")
#include <nntl/math.h>
#include <nntl/common.h>
#include <nntl/interfaces.h>
extern void (*demo_hook)(const char* what, void* obj);
extern int (*demo_set_thread_priority)(unsigned long, int);
static std::thread::id g_main = std::this_thread::get_id();
static bool in_main() { return std::this_thread::get_id() == g_main; }
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
static void watchdog(int sec) { std::thread([sec] { ms(sec * 1000); fprintf(stderr, "no progress for %d s\n", sec); _exit(3); }).detach(); }
#define CHECK(c, ...) do { if (!(c)) { fprintf(stderr, "FAILED: " __VA_ARGS__); fprintf(stderr, "\n"); fflush(stderr); _exit(1); } } while (0)
using namespace nntl;
