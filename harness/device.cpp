#include "mbv.hpp"
#include "spine/io/stream/implementations/mock.hpp"
#include "spine/platform/hal.hpp"
using mbv::J;
using spn::io::MockStream;
using spn::io::Stream;
static std::unique_ptr<MockStream> mock;
static std::unique_ptr<HAL::UART> uart, uart2;

void handle(const J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    long long res = 0;
    std::vector<uint8_t> data;
    std::vector<uint8_t> vs;
    if (op.has("vs"))
        for (auto x : op["vs"].ints()) vs.push_back(static_cast<uint8_t>(x));
    Stream* s = nullptr;
    if (op.has("via")) s = op["via"].s() == "mock" ? static_cast<Stream*>(mock.get()) : op["via"].s() == "uart" ? uart.get() : uart2.get();
    const std::string how = op.has("how") ? op["how"].s() : "";
    if (k == "new") {
        uart2.reset();
        uart.reset();
        mock = std::make_unique<MockStream>(MockStream::Config{.input_buffer_size = op["cin"].z(), .output_buffer_size = op["cout"].z()});
        uart = std::make_unique<HAL::UART>(HAL::UART::Config{.stream = mock.get()});
        uart2 = std::make_unique<HAL::UART>(HAL::UART::Config{.stream = uart.get()});
        spn::platform::MockStateInstance() = {};
    } else if (k == "inject")
        mock->inject_bytestream(vs);
    else if (k == "extract") {
        auto x = mock->extract_bytestream();
        if (x)
            data = *x;
        else
            res = -1;
    } else if (k == "write") {
        const auto was = vs;
        if (how == "bytes")
            res = static_cast<long long>(s->write(vs.data(), vs.size()));
        else if (how == "chars")
            res = static_cast<long long>(s->write(reinterpret_cast<const char*>(vs.data()), vs.size()));
        else if (how == "view")
            res = static_cast<long long>(s->write(std::string_view(reinterpret_cast<const char*>(vs.data()), vs.size())));
        else if (how == "byte")
            res = s->write(vs[0]) ? 1 : 0;
        else
            res = s->write(static_cast<char>(vs[0])) ? 1 : 0;
        if (vs != was) res = -9;
    } else if (k == "read") {
        std::vector<uint8_t> b(op["n"].z() + 2, 0xA5);
        const auto n = op["n"].z();
        size_t got;
        if (how == "bytes")
            got = s->read(b.data() + 1, n);
        else if (how == "chars")
            got = s->read(reinterpret_cast<char*>(b.data() + 1), n);
        else
            got = s->read(b[1]) ? 1 : 0;
        res = static_cast<long long>(got);
        if (got <= n) data.assign(b.begin() + 1, b.begin() + 1 + static_cast<long>(got));
        if (b.front() != 0xA5 || b.back() != 0xA5) res = -9;
    } else if (k == "flush")
        s->flush();
    else if (k == "start")
        s->initialize();
    else if (k == "wait") {
        const auto n = op["n"].i();
        if (how == "delay") HAL::delay(k_time_ms(n));
        if (how == "delay_ms") HAL::delay_ms(k_time_ms(n));
        if (how == "delay_ms_int") HAL::delay_ms(static_cast<uint32_t>(n));
        if (how == "delay_us") HAL::delay_us(k_time_us(n));
        if (how == "delay_us_int") HAL::delay_us(static_cast<uint32_t>(n));
    }
    const auto us = static_cast<long long>(HAL::micros().raw());
    o.i("res", res).ia("data", data).i("avail", mock->available()).i("room", mock->available_for_write());
    o.i("ms", HAL::millis().raw()).i("us_ms", us / 1000).i("us_us", us % 1000);
    o.b("uart_ok", uart->status() == HAL::UART::Status::OK && uart2->status() == HAL::UART::Status::OK);
    o.b("agree", uart->available() == mock->available() && uart2->available() == mock->available() && uart->available_for_write() == mock->available_for_write() &&
                     uart2->available_for_write() == mock->available_for_write());
}
