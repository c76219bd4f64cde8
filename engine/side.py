"""Declarations the sources do not carry: types of untyped attributes, assumed contracts used at call sites, and shape
facts established by setup().  All of it is listed in the evidence as assumptions."""
import z3
from core import Ref, R, I, B, NONE, NAN, INF, TRUE, FALSE, arrsort
from values import *

TYPES = {
    "AbstractNode._model": "Model", "AbstractNode._parent": "AbstractNode", "Component.model": "Model",
    "ScenarioCollection.model": "Model",
    "Model.scenarios": "ScenarioCollection", "Model.timestepper": "Timestepper",
    "AbstractNode._cost_param": "Parameter",
    "AggregatedNode._nodes": "list[Node]", "AggregatedNode._factors": "list[Parameter]?", "AggregatedStorage._storage_nodes": "list[Storage]",
    "AggregatedNode._flow_weights": "double[1]?",
    "VirtualStorage._nodes": "list[AbstractNode]",
    "ScenarioCollection._scenarios": "list[Scenario]",
    "BreakLink.link": "Link", "DelayNode.input": "Input", "LossLink.net": "Link", "LossLink.output": "Output", "PiecewiseLink.sublinks": "list[Input]",
    "Parameter.__values": "double[1]",
    "AbstractNode._name": "str", "Component._name": "str",
    "AggregatedParameter.parameters": "list[Parameter]", "AggregatedIndexParameter.parameters": "list[IndexParameter]", "IndexedArrayParameter.params": "list[Parameter]",
    "MultipleThresholdIndexParameter.thresholds": "list[Parameter]", "MultipleThresholdParameterIndexParameter.thresholds": "list[Parameter]",
    "BaseControlCurveParameter._control_curves": "list[Parameter]", "ControlCurveIndexParameter._control_curves": "list[Parameter]",
    "ControlCurveParameter.parameters": "list[Parameter]?", "ControlCurveInterpolatedParameter.parameters": "list[Parameter]?",
    "License._node": "AbstractNode", "TimestepLicense._amount": "double", "StorageLicense._amount": "double", "StorageLicense._remaining": "double[1]",
    "AnnualLicense._prev_year": "int?", "AnnualExponentialLicense._max_value": "double", "AnnualExponentialLicense._k": "double", "AnnualHyperbolaLicense._value": "double",
    "KeatingStreamFlowParameter.storage_node": "Storage", "KeatingStreamFlowParameter.levels": "double[1]", "KeatingStreamFlowParameter.transmissivity": "double[1]", "KeatingStreamFlowParameter.coefficient": "double",
    "ScenarioWrapperParameter._scenario_index": "int", "ScenarioWrapperParameter.parameters": "list[Parameter]",
    "InterpolatedParameter._parameter": "Parameter", "InterpolatedVolumeParameter._node": "Storage", "InterpolatedFlowParameter._node": "AbstractNode",
    "InterpolatedQuadratureParameter._upper_parameter": "Parameter", "InterpolatedQuadratureParameter._lower_parameter": "Parameter",
    "Timestepper._current": "Timestep",
    "RecorderThresholdParameter.initial_value": "int",
    "AnnualCountIndexThresholdRecorder.parameters": "list[IndexParameter]", "AnnualCountIndexThresholdRecorder.exclude_months": "list[int]?",
    "AnnualCountIndexThresholdRecorder.include_from_month": "int?", "AnnualCountIndexThresholdRecorder.include_from_day": "int?",
    "AnnualCountIndexThresholdRecorder.include_to_month": "int?", "AnnualCountIndexThresholdRecorder.include_to_day": "int?",
    "AnnualTotalFlowRecorder.nodes": "list[AbstractNode]",
    "Event.start": "Timestep", "Event.end": "Timestep", "Event.scenario_index": "ScenarioIndex", "Event.values": "list[double]?",
    "EventRecorder.events": "list[Event]", "EventRecorder._current_events": "list[Event]", "EventRecorder.threshold": "Component",
    "AggregatedRecorder.recorders": "list[Recorder]",
    "EventRecorder.tracked_parameter": "Parameter", "EventRecorder.minimum_event_length": "int", "EventRecorder._num_steps": "int",
    "MultipleThresholdParameterIndexParameter.parameter": "Parameter", "MultipleThresholdIndexParameter.node": "AbstractNode",
    "MonthlyProfileParameter.interp_day": "str?",
}
DISTINCT = set()


def make():
    return {"types": dict(TYPES), "attr": {}, "methods": {}, "funcs": {}, "names": {}, "new": {}, "ext": {}, "setters": {},
            "ignore": {"Model.dirty", "AbstractNode.comment"}, "anyattr": {"global_id": "ScenarioIndex"}, "objcmp": {}, "objbin": {}, "fresh": set(),
            "distinct": set(DISTINCT), "noalias": True}


NCOMB_FIELDS = ["AbstractNode._flow", "AbstractNode._prev_flow", "AbstractStorage._volume", "AbstractStorage._current_pc",
                "Parameter.__values", "IndexParameter.__indices"]


def install(ex):
    s, L = ex.side, ex.L
    SI = lambda: ex.P.find_class("ScenarioIndex")
    s["attr"]["ScenarioCollection.combinations"] = lambda e, st, o: A("ScenarioIndex", [e.ncomb], ("G", lambda _s, k: e.COMBO(k)), None, True)
    # scenario i of the enumeration has global id i (contract of get_combinations, P07)
    L.rules["ScenarioIndex.global_id"] = lambda r: r.arg(0) if z3.is_app(r) and r.decl().name() == "COMBO" else None
    for k in NCOMB_FIELDS:
        L.rules[k + "#0"] = lambda r: ex.ncomb
    L.rules["AbstractStorage._volume#none"] = lambda r: FALSE
    inv = ex.lib.fn("COMBO_inv", Ref, I)
    m = s["methods"]

    def get_value(e, st, o, args, kw):
        si = args[0] if args else kw["scenario_index"]
        a = e.load(st, "Parameter.__values", o.t, "double[1]")
        if isinstance(si, NoneV): raise Unsupported("get_value(None)")
        return S(e.rd(st, a, e.field(st, "ScenarioIndex.global_id", si.t, I)), "double")
    m["Parameter.get_value"] = get_value
    m["Parameter.get_all_values"] = lambda e, st, o, a, k: e.load(st, "Parameter.__values", o.t, "double[1]")
    m["Parameter.get_constant_value"] = lambda e, st, o, a, k: S(e.lib.fn("constant_value", Ref, R)(o.t), "double")

    def get_index(e, st, o, args, kw):
        si = args[0]
        a = e.load(st, "IndexParameter.__indices", o.t, "int[1]")
        return S(e.rd(st, a, e.field(st, "ScenarioIndex.global_id", si.t, I)), "int")
    m["IndexParameter.get_index"] = get_index
    m["IndexParameter.get_all_indices"] = lambda e, st, o, a, k: e.load(st, "IndexParameter.__indices", o.t, "int[1]")
    m["ScenarioIndex.__getitem__"] = None
    del m["ScenarioIndex.__getitem__"]


ASSUMPTIONS = [
    "floating-point numbers are treated as reals, with NaN and the infinities as distinguished constants; machine integers as unbounded",
    "per-scenario arrays of nodes and parameters have one entry per scenario combination, combination i has global id i, "
    "there is at least one combination (established by setup(); stated for every object)",
    "distinct array attributes do not share memory unless assigned within the function under proof",
    "objects a method is called on are not None; virtual methods without a contract are inlined from the static class "
    "only when no subclass overrides them",
    "Parameter.get_value(si) is the parameter's value of this timestep for that scenario (each parameter's own contract shows what that is)",
]
