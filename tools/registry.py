import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_DOC = """What each check is built from.  Paths are relative to /repo/src."""
VAL = """ossia/context.cpp
ossia/network/base/name_validation.cpp
ossia/network/base/node.cpp
ossia/network/base/node_attributes.cpp
ossia/network/base/osc_address.cpp
ossia/network/base/parameter.cpp
ossia/network/common/extended_types.cpp
ossia/network/dataspace/dataspace_visitors.cpp
ossia/network/dataspace/detail/dataspace_impl.cpp
ossia/network/exceptions.cpp
ossia/network/value/value.cpp""".split()
DOMAIN = """ossia/network/domain/clamp.cpp
ossia/network/domain/clamp_max.cpp
ossia/network/domain/clamp_min.cpp
ossia/network/domain/detail/domain_impl.cpp
ossia/network/domain/domain_base.cpp
ossia/network/domain/fold.cpp
ossia/network/domain/wrap.cpp""".split()
NET = VAL + DOMAIN + """ossia/network/base/device.cpp
ossia/network/base/node_functions.cpp
ossia/network/base/protocol.cpp
ossia/network/common/complex_type.cpp
ossia/network/common/path.cpp
ossia/network/common/device_parameter.cpp
ossia/network/common/debug.cpp
ossia/network/context.cpp
ossia/network/generic/generic_device.cpp
ossia/network/generic/generic_node.cpp
ossia/network/generic/generic_parameter.cpp
ossia/network/generic/alias_node.cpp
ossia/network/local/local.cpp
ossia/network/rate_limiting_protocol.cpp""".split()
EXPR = """ossia/editor/expression/expression.cpp
ossia/editor/expression/expression_atom.cpp
ossia/editor/expression/expression_bool.cpp
ossia/editor/expression/expression_composition.cpp
ossia/editor/expression/expression_generic.cpp
ossia/editor/expression/expression_not.cpp
ossia/editor/expression/expression_pulse.cpp""".split()
STATE = """ossia/editor/state/message.cpp
ossia/editor/state/state.cpp
ossia/editor/state/state_element.cpp
ossia/editor/exceptions.cpp""".split()
GRAPH = """ossia/audio/audio_parameter.cpp
ossia/audio/audio_protocol.cpp
ossia/dataflow/data.cpp
ossia/dataflow/execution_state.cpp
ossia/dataflow/graph/graph.cpp
ossia/dataflow/graph_node.cpp
ossia/dataflow/nodes/state.cpp
ossia/dataflow/port.cpp
ossia/dataflow/control_inlets.cpp
ossia/editor/curve/curve.cpp
ossia/editor/scenario/time_interval.cpp
ossia/editor/scenario/time_process.cpp
ossia/protocols/midi/midi_device.cpp
ossia/protocols/midi/midi_node.cpp
ossia/protocols/midi/midi_parameter.cpp
ossia/protocols/midi/midi_protocol.cpp""".split() + STATE
SCEN = ["ossia/detail/thread.cpp"] + EXPR + """ossia/editor/loop/loop.cpp
ossia/editor/scenario/scenario.cpp
ossia/editor/scenario/clock.cpp
ossia/editor/scenario/detail/scenario_execution.cpp
ossia/editor/scenario/detail/scenario_offset.cpp
ossia/editor/scenario/detail/scenario_sync_execution.cpp
ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp
ossia/editor/scenario/time_event.cpp
ossia/editor/scenario/time_sync.cpp""".split()
OSC = ["ossia/network/zeroconf/zeroconf.cpp", "ossia/network/osc/osc.cpp", "ossia/network/osc/detail/osc_messages.cpp"]
MINUIT = ["ossia/network/minuit/minuit.cpp", "ossia/network/minuit/detail/minuit_impl.cpp"]
OSCQUERY = """ossia/network/oscquery/detail/json_reader_detail.cpp
ossia/network/oscquery/detail/json_writer_detail.cpp
ossia/network/oscquery/detail/html_writer.cpp
ossia/network/oscquery/detail/query_parser.cpp
ossia/network/oscquery/detail/osc_writer.cpp
ossia/network/oscquery/detail/attributes.cpp
ossia/network/oscquery/detail/typetag.cpp""".split()
PRESET = ["ossia/preset/preset.cpp", "ossia/preset/exception.cpp"]
CAPI = """ossia-c/ossia/ossia_protocol.cpp
ossia-c/ossia/ossia_node.cpp
ossia-c/ossia/ossia_device.cpp
ossia-c/ossia/ossia_parameter.cpp
ossia-c/ossia/ossia_network_context.cpp
ossia-c/ossia/ossia_value.cpp
ossia-c/ossia/ossia_domain.cpp""".split()
EVERYTHING = ["ossia/detail/thread.cpp"] + NET + GRAPH + SCEN + OSC + MINUIT + OSCQUERY + PRESET + ["ossia/editor/automation/tinyspline.c"]

# id -> dict(harness=[...], repo=[...], san=..., libs=[...], flags=[...])
CHECKS = {}


def check(cid, harness, repo=(), san="", repo_san="", libs=(), flags=(),
          q=1, t=1, san_only=None):
    """q, t: factors on the case counts of the quick and thorough tiers.
    san_only: the repository sources to which repo_san applies (all by default)."""
    CHECKS[cid] = dict(
        harness=harness if isinstance(harness, list) else [harness],
        repo=list(dict.fromkeys(repo)), san=san, repo_san=repo_san,
        san_only=san_only, libs=list(libs), flags=list(flags), quick=q, thorough=t)


check("C01", "c01_value_laws.cpp", VAL, q=2, t=2)
check("C02", "c02_conversion.cpp", VAL, q=10, t=10)
check("C03", "c03_text.cpp", VAL, q=30, t=30)
check("C04", "c04_indexed.cpp", VAL, q=12, t=12)
check("C05", "c05_bounding.cpp", VAL + DOMAIN, q=10, t=10)
check("C06", "c06_domain_sets.cpp", VAL + DOMAIN, q=10, t=10)
check("C07", "c07_units.cpp", VAL, q=40, t=40)
check("C08", "c08_unit_values.cpp", VAL, q=50, t=50)
check("C32", "c32_framing.cpp", [], san="asub", q=1, t=4)
check("C33", "c33_containers.cpp", [], san="asub", q=3, t=4)
check("C34", "c34_callbacks.cpp", [], san="asub", q=3, t=4)
check("C35", "c35_shared.cpp", [], san="asub", q=2, t=3)
check("C23", "c23_time.cpp", [], q=4, t=6)
check("C24", "c24_tick.cpp", [], q=4, t=6)
check("C29", "c29_graph_algorithms.cpp", [], q=4, t=4)
check("C22", "c22_curves.cpp", NET + ["ossia/editor/curve/curve.cpp", "ossia/editor/exceptions.cpp"], q=2, t=2)
check("C31", "c31_ports.cpp", NET + GRAPH, q=6, t=10)
check("C09", "c09_tree.cpp", NET, q=6, t=10)
check("C11", "c11_patterns.cpp", NET, q=2, t=6)
check("C12", "c12_parameters.cpp", NET, q=2, t=6)
check("C42", "c42_attributes.cpp", NET, q=2, t=6)
check("C13", "c13_osc_codec.cpp", NET + OSC, san="asub", q=2, t=6)
check("C14", "c14_osc_malformed.cpp", NET + OSC, san="asub", repo_san="", q=2, t=6)
check("C15", "c15_osc_pair.cpp", NET + OSC, san="asub", repo_san="", q=2, t=6)
check("C18", "c18_minuit.cpp", NET + OSC + MINUIT, san="asan", repo_san="asan", q=2, t=10)
check("C25", "c25_interval.cpp", NET + GRAPH + SCEN, q=30, t=60)
check("C26", "c26_scenario.cpp", NET + GRAPH + SCEN, q=10, t=30)
check("C27", "c27_offset.cpp", NET + GRAPH + SCEN, q=6, t=20)
check("C28", "c28_graph.cpp", NET + GRAPH + SCEN, q=10, t=30)
check("C20", "c20_state.cpp", NET + GRAPH + SCEN, q=10, t=30)
check("C21", "c21_expressions.cpp", NET + EXPR, san="asub", repo_san="", q=4, t=10)
check("C19", "c19_presets.cpp", NET + PRESET, san="asub", repo_san="", q=1, t=10)
check("C40", "c40_nodes.cpp", NET + GRAPH + SCEN + ["ossia/editor/automation/tinyspline.c"], san="asub", repo_san="", q=2, t=10)
check("C44", "c44_sounds.cpp", NET + GRAPH + SCEN, libs=["-lsamplerate"], san="asub", repo_san="", q=2, t=10)
check("C37", "c37_c_api.cpp",
      NET + OSC + MINUIT + OSCQUERY + CAPI
      + ["ossia/network/oscquery/oscquery_server.cpp", "ossia/network/oscquery/oscquery_mirror.cpp"],
      san="asan", repo_san="asan", san_only=CAPI, q=8, t=10, flags=[f"-I{VERIF}/shims_mem"])
check("C38", "c38_cpp98.cpp",
      NET + OSC + OSCQUERY + PRESET + ["ossia-cpp/ossia-cpp98.cpp"]
      + ["ossia/network/oscquery/oscquery_server.cpp", "ossia/network/oscquery/oscquery_mirror.cpp"],
      san="asan", repo_san="asan", san_only=["ossia-cpp/ossia-cpp98.cpp"], q=1, t=10, flags=[f"-I{VERIF}/shims_mem"])
check("C16", "c16_oscquery_json.cpp", NET + OSC + OSCQUERY, q=2, t=10)
check("C17", "c17_oscquery_session.cpp",
      NET + OSC + OSCQUERY + ["ossia/network/oscquery/oscquery_server.cpp", "ossia/network/oscquery/oscquery_mirror.cpp"],
      q=1, t=10, flags=[f"-I{VERIF}/shims_mem"])
check("C10", "c10_oscquery_malformed.cpp",
      NET + OSC + OSCQUERY + ["ossia/network/oscquery/oscquery_server.cpp", "ossia/network/oscquery/oscquery_mirror.cpp"],
      san="asub", repo_san="asub", q=1, t=10,
      san_only=OSCQUERY + ["ossia/network/oscquery/oscquery_server.cpp", "ossia/network/oscquery/oscquery_mirror.cpp"], flags=[f"-I{VERIF}/shims_mem"])
