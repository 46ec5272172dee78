// A recording output stream: std::basic_ostream specialised for traits of its own, so that the real streaming templates of the
// library run symbolically. Text is recorded character by character, a number as one token holding its value.
#pragma once
#include <cstdint>
#include <ostream>
#include <string>
#include <cstring>
struct RecTraits : std::char_traits<char> {};
struct Tok { bool num; uint64_t v; };
namespace std { template<> class basic_ostream<char,RecTraits> { public: typedef char char_type; typedef RecTraits traits_type; enum { Cap=160 }; Tok t[Cap]; int n; int numbers;
  basic_ostream():n(0),numbers(0){}
  void put_(bool num,uint64_t v){ if(n<Cap){ t[n].num=num; t[n].v=v; } n++; numbers+=num; }
  basic_ostream& put(char c){ put_(false,(unsigned char)c); return *this; }
  basic_ostream& write(const char* s,long k){ for(long i=0;i<k;i++) put(s[i]); return *this; }
  basic_ostream& operator<<(char c){ return put(c); }
  basic_ostream& operator<<(const char* s){ for(;*s;++s) put(*s); return *this; }
  basic_ostream& operator<<(const std::string& s){ return write(s.data(),(long)s.size()); }
  basic_ostream& operator<<(bool v){ put_(true,v); return *this; }
  basic_ostream& operator<<(short v){ put_(true,(uint64_t)(int64_t)v); return *this; }
  basic_ostream& operator<<(unsigned short v){ put_(true,v); return *this; }
  basic_ostream& operator<<(int v){ put_(true,(uint64_t)(int64_t)v); return *this; }
  basic_ostream& operator<<(unsigned v){ put_(true,v); return *this; }
  basic_ostream& operator<<(long v){ put_(true,(uint64_t)v); return *this; }
  basic_ostream& operator<<(unsigned long v){ put_(true,v); return *this; }
  basic_ostream& operator<<(double v){ uint64_t b; __builtin_memcpy(&b,&v,8); put_(true,b); return *this; } }; }
typedef std::basic_ostream<char,RecTraits> Rec;
