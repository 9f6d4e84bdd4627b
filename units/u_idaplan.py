"""C02: the plans IDA* (search/idastar.hpp) reports are valid."""
import u_idastar
UNITS = [u_idastar.ida('idastar-plan', False)]
