"""P08, P09: LogParser::get_next_symbol: what Lexer::scan proves, in the words LogParser::parse uses."""
from . import lexer, parser
ENTRY = parser.ENTRY
unit = parser.make("nextsym", True, {**parser.noproof(lexer.contracts), "LogParser::get_next_symbol": parser.SYM,
                                       "LogParser::read_into_input": parser.READ, "LogParser::increase_capacity": parser.GROW, "LogParser::reset": parser.RESET})
contracts = unit.contracts
