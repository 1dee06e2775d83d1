#pragma once
#include "Arduino.h"
class Print
{
public:
    virtual ~Print() = default;
    virtual size_t write(uint8_t) = 0;
    virtual size_t write(const uint8_t* p, size_t n) { size_t k = 0; while (n--) k += write(*p++); return k; }
    size_t write(const char* s) { return s ? write(reinterpret_cast<const uint8_t*>(s), strlen(s)) : 0; }
    size_t write(const char* p, size_t n) { return write(reinterpret_cast<const uint8_t*>(p), n); }
    virtual int availableForWrite() { return 128; }
    virtual void flush() {}
};
class Stream : public Print
{
protected:
    unsigned long _timeout = 1000;
public:
    virtual int available() = 0;
    virtual int read() = 0;
    virtual int peek() = 0;
    void setTimeout(unsigned long t) { _timeout = t; }
    unsigned long getTimeout() const { return _timeout; }
};
