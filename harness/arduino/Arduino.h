// A stand-in for the Arduino core: a board whose pins, interrupts, serial port and clock are plain data.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <string>
#include <vector>

#define LOW 0
#define HIGH 1
#define INPUT 0
#define OUTPUT 1
#define INPUT_PULLUP 2
#define INPUT_PULLDOWN 3
// as on the ESP32; other cores number them differently
#define RISING 1
#define FALLING 2
#define CHANGE 3
#define ONLOW 4
#define ONHIGH 5
#define DEFAULT 1
#define EXTERNAL 0
#define DEC 10
#define HEX 16
#define NOT_AN_INTERRUPT -1
#define digitalPinToInterrupt(p) ((p) >= 16 && (p) < 22 ? (p)-16 : NOT_AN_INTERRUPT)

typedef uint8_t byte;
typedef bool boolean;

namespace board {
struct Attached {
    void (*callback)();
    int mode;
};
struct State {
    std::map<int, int> mode, level, reading; // per pin
    std::map<int, double> duty; // 0 .. 1, as seen on the pin; -1: more than the resolution holds
    int resolution = 8;
    std::map<int, Attached> interrupts; // per interrupt number
    bool interrupts_on = true;
    uint64_t us = 0; // since it was started
};
State& state();
struct Halted {};
} // namespace board

inline void pinMode(int pin, int mode) { board::state().mode[pin] = mode; }
inline void digitalWrite(int pin, int level) { board::state().level[pin] = level != 0; }
inline int digitalRead(int pin) { return board::state().reading[pin]; }
inline int analogRead(int pin) { return board::state().reading[pin]; }
inline void analogReadResolution(int) {}
inline void analogReference(int) {}
inline void analogWriteResolution(int bits) { board::state().resolution = bits; }
inline void analogWrite(int pin, int value) {
    const int top = (1 << board::state().resolution) - 1;
    board::state().duty[pin] = value < 0 || value > top ? -1.0 : static_cast<double>(value) / top;
}
inline void attachInterrupt(int number, void (*callback)(), int mode) { board::state().interrupts[number] = {callback, mode}; }
inline void detachInterrupt(int number) { board::state().interrupts.erase(number); }
inline unsigned long millis() { return static_cast<uint32_t>(board::state().us / 1000); }
inline unsigned long micros() { return static_cast<uint32_t>(board::state().us); }
inline void delay(unsigned long ms) { board::state().us += ms * 1000; }
inline void delayMicroseconds(unsigned int us) { board::state().us += us; }
inline void yield() {}
inline void interrupts() { board::state().interrupts_on = true; }
// what follows would never return: this is where a halted board is left from
inline void noInterrupts() {
    board::state().interrupts_on = false;
    throw board::Halted{};
}

class Print {
public:
    virtual ~Print() = default;
    virtual size_t write(uint8_t) = 0;
    virtual size_t write(const uint8_t* buffer, size_t size) {
        size_t n = 0;
        while (n < size && write(buffer[n])) ++n;
        return n;
    }
    size_t write(const char* s) { return write(reinterpret_cast<const uint8_t*>(s), strlen(s)); }
    size_t write(const char* s, size_t n) { return write(reinterpret_cast<const uint8_t*>(s), n); }
    virtual int availableForWrite() { return 0; }
    virtual void flush() {}
    size_t print(const char* s) { return write(s); }
    size_t print(char* s) { return write(s); }
    size_t print(const std::string& s) { return write(s.data(), s.size()); }
    size_t print(char c) { return write(static_cast<uint8_t>(c)); }
    size_t print(int v, int = DEC) { return print(std::to_string(v)); }
    size_t print(unsigned v, int = DEC) { return print(std::to_string(v)); }
    size_t print(long v, int = DEC) { return print(std::to_string(v)); }
    size_t print(unsigned long v, int = DEC) { return print(std::to_string(v)); }
    size_t print(double v, int digits = 2) {
        char b[64];
        snprintf(b, sizeof b, "%.*f", digits, v);
        return print(b);
    }
    size_t println() { return write("\r\n"); }
    template<typename T>
    size_t println(const T& v) {
        const auto n = print(v);
        return n + println();
    }
};

class Stream : public Print {
public:
    virtual int available() = 0;
    virtual int read() = 0;
    virtual int peek() = 0;
    void setTimeout(unsigned long ms) { _timeout = ms; }
    unsigned long getTimeout() const { return _timeout; }
    // as the core does it: waits for what is missing, and then gives what there is
    virtual size_t readBytes(char* buffer, size_t length) {
        size_t n = 0;
        while (n < length && available() > 0) buffer[n++] = static_cast<char>(read());
        if (n < length) delay(_timeout);
        return n;
    }
    virtual size_t readBytes(uint8_t* buffer, size_t length) { return readBytes(reinterpret_cast<char*>(buffer), length); }

protected:
    unsigned long _timeout = 1000;
};

class HardwareSerial : public Stream {
public:
    std::deque<uint8_t> rx;
    std::string tx;
    size_t room = 0;
    unsigned long baudrate = 0;
    int flushed = 0;

    void begin(unsigned long baud) { baudrate = baud; }
    void end() { baudrate = 0; }
    operator bool() const { return true; }
    int available() override { return static_cast<int>(rx.size()); }
    int peek() override { return rx.empty() ? -1 : rx.front(); }
    int read() override {
        if (rx.empty()) return -1;
        const int v = rx.front();
        rx.pop_front();
        return v;
    }
    int availableForWrite() override { return static_cast<int>(room); }
    using Print::write;
    size_t write(uint8_t v) override {
        if (room == 0) return 0;
        --room;
        tx += static_cast<char>(v);
        return 1;
    }
    void flush() override { ++flushed; }
};
extern HardwareSerial Serial;
extern char* __brkval; // the end of the heap
