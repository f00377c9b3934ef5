// Stateless functions: base64 and the acceptance of names.
//   enc|encurl|dec <hex>            -> {"ex":..,"out":hex}
//   name <pred> <ty> <hex prefix>   -> {"acc":[bytes]} accepted next bytes
//   name1 <pred> <ty> <hex>         -> {"res":bool}
//   locale <n>                      -> switches the global C++ locale
#include <iostream>
#include <locale>

#include "prometheus/detail/base64.h"
#include "world.h"

// classifies every byte above 0x7f and some punctuation as alphanumeric
struct OddCtype : std::ctype<char> {
  static const mask* table() {
    static mask t[table_size];
    const mask* c = classic_table();
    for (std::size_t i = 0; i < table_size; ++i) t[i] = c[i];
    for (int i = 128; i < 256; ++i) t[i] = mask(alpha | lower | upper | digit | print);
    t[(unsigned char)'-'] = mask(alpha | digit);
    t[(unsigned char)'z'] = mask(punct);
    t[(unsigned char)'7'] = mask(punct);
    return t;
  }
  OddCtype() : std::ctype<char>(table(), false, 0) {}
};

template <typename T>
bool reg_metric(const std::string& n) {
  Registry r;
  mkbuilder<T>().Name(n).Help("h").Register(r);
  return true;
}
template <typename T>
bool reg_const(const std::string& n) {
  Registry r;
  mkbuilder<T>().Name("m").Help("h").Labels({{n, "v"}}).Register(r);
  return true;
}
template <typename T>
bool add_label(const std::string& n) {
  Family<T> f("m", "h", {});
  Make<T>::in(f, Labels{{n, "v"}}, CtorArgs());
  return true;
}

static int test(const std::string& pred, const std::string& ty, const std::string& n) {
  try {
    Ty t = parse_ty(ty);
    bool r = pred == "check_metric" ? CheckMetricName(n)
             : pred == "check_label" ? CheckLabelName(n, mty(t))
             : pred == "reg_metric" ? DISPATCH(t, reg_metric, n)
             : pred == "reg_const" ? DISPATCH(t, reg_const, n)
                                   : DISPATCH(t, add_label, n);
    return r;
  } catch (const std::invalid_argument&) {
    return 0;
  } catch (...) {
    return 2;
  }
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string op, a, b, c;
    is >> op;
    if (op == "begin") {
      std::cout << line << "\n" << std::flush;
      continue;
    }
    if (op == "locale") {
      is >> a;
      std::locale::global(a == "0" ? std::locale::classic() : std::locale(std::locale::classic(), new OddCtype));
      if (a == "2") setlocale(LC_ALL, "C.UTF-8");
      std::cout << "{\"skip\":1}\n";
      continue;
    }
    if (op == "name" || op == "name1") {
      is >> a >> b >> c;
      c = unhex(c);
      if (op == "name1") {
        int r = test(a, b, c);
        std::cout << "{\"res\":" << (r == 2 ? "\"other\"" : r ? "true" : "false") << "}\n";
      } else {
        std::cout << "{\"acc\":[";
        bool first = true;
        for (int i = 0; i < 256; ++i) {
          int r = test(a, b, c + (char)i);
          if (!r) continue;
          std::cout << (first ? "" : ",") << (r == 2 ? 1000 : i);
          first = false;
        }
        std::cout << "]}\n";
      }
    } else {
      is >> a;
      std::string x = unhex(a), out, ex;
      try {
        out = op == "enc" ? prometheus::detail::base64_encode(x)
              : op == "encurl" ? prometheus::detail::base64url_encode(x)
                               : prometheus::detail::base64_decode(x);
      } catch (const std::exception&) {
        ex = "throw";
      } catch (...) {
        ex = "other";
      }
      std::cout << "{\"ex\":\"" << ex << "\",\"out\":" << hexs(out) << "}\n";
    }
    std::cout << std::flush;
  }
}
