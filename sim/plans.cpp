// Which profiles decide which property.
#include "harness.hpp"
void regToss(); void regTossFault(); void regScan(); void regLock(); void regMaint(); void regStats(); void regAfix(); void regFilter(); void regMailer(); void regTools(); void regBad(); void regUsers();
void registerProfiles() {
  regToss(); regTossFault(); regScan(); regLock(); regMaint(); regStats(); regAfix(); regFilter(); regMailer(); regTools(); regBad(); regUsers();
  gPlans = {
    {"C01", {{"tossfault", 9000}, {"toss", 3000}, {"bad", 2500}, {"scanfault", 4000}, {"filterfault", 1500}}},
    {"C02", {{"toss", 18000}, {"scan", 5000}}},
    {"C03", {{"toss", 16000}, {"scan", 8000}}},
    {"C04", {{"tossfault", 6000}, {"toss", 8000}}},
    {"C05", {{"bad", 10000}, {"fuzz", 10000}, {"tossfault", 4000}}},
    {"C06", {{"toss", 14000}, {"scan", 8000}, {"mailer", 1500}, {"tossfault", 1500}}},
    {"C07", {{"scanfault", 14000}, {"scan", 14000}, {"users", 4000}}},
    {"C08", {{"tossfault", 8000}, {"toss", 4000}, {"scan", 3000}, {"scanfault", 3000}, {"mailer", 3000}}},
    {"C09", {{"lock", 10000}}},
    {"C10", {{"scan", 6000}, {"scanfault", 6000}, {"tossjam", 9000}, {"tossfault", 4000}, {"maint", 6000}, {"users", 6000}}},
    {"C11", {{"scan", 6000}, {"scanfault", 6000}, {"toss", 5000}, {"tossfault", 4000}, {"maint", 6000}, {"users", 4000}}},
    {"C12", {{"maint", 40000}}},
    {"C13", {{"stats", 9000}}},
    {"C14", {{"afix", 9000}, {"afixfault", 9000}}},
    {"C15", {{"afix", 16000}, {"afixfault", 4000}, {"scan", 4000}}},
    {"C16", {{"names", 7000}, {"mailer", 2500}, {"toss", 2000}}},
    {"C17", {{"toss", 15000}, {"scan", 4000}, {"mailer", 2500}, {"names", 1500}}},
    {"C19", {{"filter", 12000}, {"filterscan", 8000}, {"filterfault", 5000}}},
    {"C20", {{"write", 40000}, {"nodelist", 40000}, {"listing", 8000}}},
    {"C18", {{"tossfault", 9000}, {"scanfault", 6000}, {"maint", 5000}, {"afixfault", 3000}, {"filterfault", 1500}}},
  };
}
