#include "mbv.hpp"
#include "spine/structure/time/datetime.hpp"
#include <cstring>
#include <new>
using mbv::J;

// objects are made in memory full of ones, so that what is not set shows
alignas(DateTime) static unsigned char room[sizeof(DateTime)];
template<typename... A>
static DateTime& make(A... a) {
    memset(room, 1, sizeof room);
    return *new (room) DateTime(a...);
}
static int64_t day; // the day walked to

static long long floordiv(long long a, long long b) { return a / b - (a % b < 0); }

static void show(mbv::Out& o, DateTime& t) {
    o.i("y", t.getYear()).i("m", t.getMonth()).i("d", t.getDay()).i("h", t.getHour()).i("mi", t.getMinute()).i("s", t.getSecond());
    o.i("wd", t.getWeekDay()).i("yd", t.getYearDay());
    const long long u = t.getUnixTime(), y2k = t.getY2kTime();
    o.i("day", floordiv(u, 86400)).i("sec", u - floordiv(u, 86400) * 86400);
    o.i("day2k", y2k - floordiv(y2k, 86400) * 86400 == u - floordiv(u, 86400) * 86400 ? floordiv(y2k, 86400) : -999999999);
    char buf[25]; // 24 characters and the terminator fit exactly
    char tight[24];
    const size_t n = t.strf_DateTime(buf, sizeof buf);
    o.s("text", n != strlen(buf) ? "length" : t.strf_DateTime(tight, sizeof tight) != 0 ? "overrun" : buf);
    char iso[64];
    t.strf_DateTime(iso, sizeof iso, "%Y-%m-%dT%H%M%S");
    o.s("iso", iso);
}

static long long jan1(long long y) {
    long long p = y - 1;
    return 365 * (y - 1970) + (floordiv(p, 4) - 492) - (floordiv(p, 100) - 19) + (floordiv(p, 400) - 4);
}

void handle(const J& op, mbv::Out& o) {
    const auto& k = op["op"].s();
    if (k == "jump") day = jan1(op["y"].i());
    if (k == "tick") ++day;
    if (k == "jump" && day == 0) show(o, make());
    else if (k == "jump" || k == "tick") show(o, make(static_cast<time_t>(day * 86400)));
    if (k == "at") show(o, make(static_cast<time_t>(day * 86400 + op["s"].i())));
    if (k == "any") show(o, make(static_cast<time_t>(op["day"].i() * 86400 + op["s"].i())));
    if (k == "carry") {
        show(o, make(static_cast<int>(op["y"].i()), static_cast<int>(op["m"].i()), static_cast<int>(op["d"].i()), static_cast<int>(op["h"].i()),
                     static_cast<int>(op["mi"].i()), static_cast<int>(op["s"].i())));
    }
    if (k == "fields" || k == "texts") {
        const int y = op["y"].i(), m = op["m"].i(), d = op["d"].i(), h = op["t"]["h"].i(), mi = op["t"]["mi"].i(), s = op["t"]["s"].i();
        if (k == "fields") {
            show(o, h || mi || s ? make(y, m, d, h, mi, s, m % 7 + 1, d) : make(y, m, d));
        } else {
            static const char* names[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
            char date[32], time[32];
            snprintf(date, sizeof date, "%s %2d %4d", names[m - 1], d, y);
            snprintf(time, sizeof time, "%02d:%02d:%02d", h, mi, s);
            show(o, make(static_cast<const char*>(date), static_cast<const char*>(time)));
        }
    }
}
