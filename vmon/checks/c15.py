""" C15: graph structure of workflows. """
import networkx as nx

from dessia_common import graph as G
from dessia_common.typings import MethodType
from dessia_common.utils.types import typematch
from dessia_common.workflow import blocks as B
from dessia_common.workflow.core import Pipe, Variable, Workflow, WorkflowError

from vmon.core import scenario
from vmon.wfdesc import address
from vmon.wfmodels import packaged
from vmon.checks.c08 import generate


class Model:
    """ The graph as the pipes say, by identity. """

    def __init__(self, workflow):
        self.workflow = workflow
        self.blocks = list(workflow.blocks)
        self.owner = {id(v): b for b in self.blocks for v in list(b.inputs) + list(b.outputs)}
        self.feeding = {id(p.output_variable): p for p in workflow.pipes}
        self.nbvs = []
        for pipe in workflow.pipes:
            for variable in (pipe.input_variable, pipe.output_variable):
                if id(variable) not in self.owner and not any(variable is v for v in self.nbvs):
                    self.nbvs.append(variable)

    def source(self, variable):
        pipe = self.feeding.get(id(variable))
        return None if pipe is None else pipe.input_variable

    def producers(self, block):
        out = []
        for variable in block.inputs:
            source = self.source(variable)
            if source is not None and id(source) in self.owner and self.owner[id(source)] not in out:
                out.append(self.owner[id(source)])
        return out

    def ancestors(self, block):
        seen, todo = [], [block]
        while todo:
            for producer in self.producers(todo.pop()):
                if not any(producer is b for b in seen):
                    seen.append(producer)
                    todo.append(producer)
        return seen

    def inputs(self):
        return [v for b in self.blocks for v in b.inputs if id(v) not in self.feeding] + self.nbvs

    def free_inputs(self, block):
        """ Unlocked inputs of the workflow that the block reads directly. """
        out = []
        for variable in block.inputs:
            source = self.source(variable)
            if source is None:
                source = variable
            elif id(source) in self.owner:
                continue
            if not source._locked and not any(source is v for v in out):
                out.append(source)
        return out


def same_set(m, got, expected, kind, detail=""):
    """ Same elements by identity, each once. """
    got, expected = list(got), list(expected)
    m.check(len(got) == len({id(g) for g in got}), kind + "-repeated", detail)
    m.check({id(g) for g in got} == {id(e) for e in expected}, kind, detail, got, expected)


def name(model, block):
    return f"block {[i for i, b in enumerate(model.blocks) if b is block]}"


def check_structure(rng, m, workflow):
    model = Model(workflow)
    # inputs
    same_set(m, workflow.inputs, model.inputs(), "inputs")
    same_set(m, workflow.nonblock_variables, model.nbvs, "nonblock-variables")
    same_set(m, workflow.variables, [v for b in model.blocks for v in b.inputs + b.outputs] + model.nbvs, "variables")
    same_set(m, workflow.locked_inputs, [v for v in model.inputs() if v._locked], "locked-inputs")
    same_set(m, workflow.nodes, model.blocks + model.nbvs, "nodes")
    # addresses
    for variable in workflow.variables:
        where = address(workflow, variable)
        expected = where[1] if where[0] == "nonblock" else where
        got = workflow.variable_indices(variable)
        m.check(got == expected, "variable-indices", "", got, expected)
        m.check(workflow.variable_from_index(got) is variable, "variable-from-index", "", got)
        m.check(workflow.is_variable_nbv(variable) == isinstance(expected, int), "is-nbv")
        m.check(workflow.variables[workflow.variable_index(variable)] is variable, "variable-index")
        incoming = model.feeding.get(id(variable))
        m.check(workflow.variable_input_pipe(variable) is incoming, "input-pipe")
        m.check(workflow.upstream_variable(variable) is (incoming.input_variable if incoming else None), "upstream-variable")
        same_set(m, workflow.variable_output_pipes(variable), [p for p in workflow.pipes if p.input_variable is variable],
                 "output-pipes")
        # place in the form
        source = model.source(variable)
        entry = source if source is not None and id(source) not in model.owner else variable
        index = workflow.input_index(variable)
        if any(entry is v for v in model.inputs()):
            m.check(index is not None and workflow.inputs[index] is entry, "input-index", "", index)
        else:
            m.check(index is None, "input-index-of-wired", "", index)
    stranger = Variable(type_=int, name="stranger")
    m.refuses("unknown-variable", workflow.variable_indices, stranger, errors=(WorkflowError,))
    for pipe in workflow.pipes:
        indices = workflow.pipe_variable_indices(pipe)
        m.check(workflow.pipe_from_variable_indices(*indices) is pipe, "pipe-from-indices", "", indices)
        m.check(workflow.variable_from_index(indices[0]) is pipe.input_variable
                and workflow.variable_from_index(indices[1]) is pipe.output_variable, "pipe-indices")
    if workflow.blocks and workflow.pipes:
        m.refuses("no-such-pipe", workflow.pipe_from_variable_indices, (0, 0, 0), (0, 0, 0), errors=(ValueError,))
    # blocks
    output_block = model.owner[id(workflow.output)]
    runtime = [output_block] + model.ancestors(output_block)
    same_set(m, workflow.runtime_blocks, runtime, "runtime-blocks")
    for i, block in enumerate(model.blocks):
        producers, ancestors = model.producers(block), model.ancestors(block)
        m.ev("blocks")
        same_set(m, workflow.upstream_blocks(block), producers, "upstream-blocks", name(model, block))
        m.check(workflow.has_upstream_block(block) == bool(producers), "has-upstream")
        same_set(m, workflow.upstream_branch(block), ancestors + [block], "upstream-branch", name(model, block))
        secondary = not any(block is b for b in runtime)
        m.check(workflow.is_block_secondary(block) == secondary, "secondary", name(model, block))
        expected = [block] + [b for b in ancestors if not any(b is r for r in runtime)]
        if secondary:
            same_set(m, workflow.secondary_branch_blocks(block), expected, "secondary-branch", name(model, block))
            for member in expected:
                for variable in member.inputs:
                    pipe = model.feeding.get(id(variable))
                    if pipe is not None and any(model.owner.get(id(pipe.input_variable)) is r for r in runtime):
                        m.check(pipe.memorize, "memorized-entry", name(model, member))
        incoming = [model.feeding.get(id(v)) for v in block.inputs]
        got = workflow.block_incoming_pipes(block)
        m.check(len(got) == len(incoming) and all(a is b for a, b in zip(got, incoming)), "incoming-pipes")
        same_set(m, workflow.block_outgoing_pipes(block), [p for p in workflow.pipes if model.owner.get(id(p.input_variable)) is block],
                 "outgoing-pipes")
        for other in rng.sample(model.blocks, min(3, len(model.blocks))):
            expected = [p for p in workflow.pipes if model.owner.get(id(p.input_variable)) is block
                        and model.owner.get(id(p.output_variable)) is other]
            same_set(m, workflow.pipes_between_blocks(block, other), expected, "pipes-between")
        config = workflow.block_upstream_variables(block)
        for variable in block.inputs:
            source = model.source(variable)
            entry = variable if source is None else source
            wired = source is not None and id(source) in model.owner
            category = "wired" if wired else "locked" if entry._locked else "available" if source is None else "nonblock"
            for label, variables in config.items():
                m.check(any(entry is v for v in variables) == (label == category), "input-category", f"{label} for {category}")
        m.check(sum(len(v) for v in config.values()) == len(block.inputs), "input-categories")
        expected = []
        for member in [block] + ancestors:
            expected += [v for v in model.free_inputs(member) if not any(v is e for e in expected)]
        for variable in block.outputs + block.inputs[:1]:
            m.check(workflow.block_from_variable(variable) is block, "block-from-variable")
            same_set(m, workflow.upstream_inputs(variable), expected, "upstream-inputs", name(model, block))
        entries = [workflow.input_index(v) for v in block.inputs]
        m.same(workflow.block_inputs_global_indices(i), [e for e in entries if e is not None], "block-inputs-indices")
    used = {id(v) for b in runtime for v in [model.source(i) for i in b.inputs] if v is not None}
    # what precedes the output variable: its block, what feeds it, and nothing else
    loose_elements = [b for b in model.blocks if not any(b is r for r in runtime)] + [v for v in model.nbvs if id(v) not in used]
    same_set(m, workflow.output_disconnected_elements(), loose_elements, "disconnected")
    check_layout(m, workflow, model)
    m.check(m.call("is_valid", workflow.is_valid) is True, "valid")
    m.check(not model.blocks or abs(sum(workflow.package_mix().values()) - 1) < 1e-9 or not workflow.package_mix(), "package-mix")


def check_layout(m, workflow, model):
    layout = m.call("layout", workflow.layout)
    nodes = model.blocks + list(workflow.nonblock_variables)
    placed = [i for component in layout for column in component for i in column]
    m.same(sorted(placed), list(range(len(nodes))), "each-node-laid-out-once")
    column, component_of = {}, {}
    for i, component in enumerate(layout):
        for j, indices in enumerate(component):
            m.check(bool(indices), "empty-column")
            for index in indices:
                column[index], component_of[index] = j, i
    position = {id(n): i for i, n in enumerate(nodes)}
    edges = 0
    for pipe in workflow.pipes:
        source = model.owner.get(id(pipe.input_variable), pipe.input_variable)
        target = model.owner.get(id(pipe.output_variable), pipe.output_variable)
        first, second = position[id(source)], position[id(target)]
        m.check(component_of[first] == component_of[second], "same-component")
        m.check(column[first] < column[second], "consumer-after-producer", f"{first} {second}", layout)
        edges += 1
    m.ev("laid-out-pipes", edges)
    # unconnected parts are different components
    undirected = nx.Graph()
    undirected.add_nodes_from(range(len(nodes)))
    for pipe in workflow.pipes:
        undirected.add_edge(position[id(model.owner.get(id(pipe.input_variable), pipe.input_variable))],
                            position[id(model.owner.get(id(pipe.output_variable), pipe.output_variable))])
    m.check(len(layout) == nx.number_connected_components(undirected), "components", "", layout)


@scenario("C15", 1200, 20000, rule="random workflows over every block kind, shuffled declarations: structure queries against the pipes, layout")
def workflows(rng, m):
    wf = generate(rng, m, nested=rng.choice([0, 1]))
    check_structure(rng, m, wf.workflow)


def random_graph(rng):
    """ Sequence blocks wired at random: wide and deep shapes, several components, shared inputs, unused blocks. """
    count = rng.choice([1, 2, 3, 4, 6, 8])
    blocks = [B.Sequence(rng.choice([1, 1, 2, 3]), name=rng.choice(["", "b", "é"])) for _ in range(count)]
    shape = rng.choice(["random", "chain", "fan", "sparse"])
    pipes, shared = [], []
    for i, block in enumerate(blocks):
        for j, variable in enumerate(block.inputs):
            probability = {"random": .6, "chain": .9, "fan": .7, "sparse": .2}[shape]
            if i and rng.random() < probability:
                source = blocks[i - 1] if shape == "chain" and not j else blocks[0] if shape == "fan" and rng.random() < .6 \
                    else blocks[rng.randrange(i)]
                pipes.append(Pipe(source.outputs[0], variable))
            elif rng.random() < .3:
                if not shared or rng.random() < .5:
                    shared.append(Variable(type_=rng.choice([int, str, None]), name=rng.choice(["v", "w"])))
                pipes.append(Pipe(rng.choice(shared), variable))
            elif rng.random() < .1:
                variable.lock(3)
    for variable in shared:
        if rng.random() < .15:
            variable.lock(4)
    order = list(blocks)
    rng.shuffle(order)
    rng.shuffle(pipes)
    output = rng.choice(blocks[-2:] if rng.random() < .6 else blocks).outputs[0]
    return Workflow(order, pipes, output, detached_variables=[Variable(type_=int, name="loose")] if rng.random() < .2 else None,
                    name="graph")


@scenario("C15", 2500, 40000, rule="random wirings of simple blocks (chains, fans, several components, unused branches, shared and locked "
                                   "inputs), shuffled declarations: structure queries against the pipes, layout")
def wirings(rng, m):
    workflow = random_graph(rng)
    m.case(repr([(address(workflow, p.input_variable), address(workflow, p.output_variable)) for p in workflow.pipes]
                + [len(b.inputs) for b in workflow.blocks] + [address(workflow, workflow.output)]))
    check_structure(rng, m, workflow)


@scenario("C15", 6, 60, rule="dense wirings (each block fed by several of the previous ones, exponentially many paths)")
def dense_wirings(rng, m):
    blocks, pipes = [B.Sum(1, name="0")], []
    for i in range(rng.choice([14, 20, 26])):
        block = B.Sum(rng.choice([2, 3]), name=str(i + 1))
        for variable in block.inputs:
            pipes.append(Pipe(rng.choice(blocks[-4:]).outputs[0], variable))
        blocks.append(block)
    order = list(blocks)
    rng.shuffle(order)
    rng.shuffle(pipes)
    workflow = Workflow(order, pipes, blocks[-1].outputs[0], name="dense")
    model = Model(workflow)
    m.case(repr([(address(workflow, p.input_variable), address(workflow, p.output_variable)) for p in pipes]))
    check_layout(m, workflow, model)
    runtime = [blocks[-1]] + model.ancestors(blocks[-1])
    same_set(m, workflow.runtime_blocks, runtime, "runtime-blocks")


@scenario("C15", 400, 6000, rule="matching of variables: exactly the pairs of compatible variables whose types match")
def matches(rng, m):
    wf = generate(rng, m, nested=0)
    workflow = wf.workflow
    model = Model(workflow)
    found = m.call("match_variables", workflow.match_variables)
    texts = m.call("match_variables", workflow.match_variables, serialize_output=True)
    typed = [v for v in workflow.variables if v.type_ is not None]
    same_set(m, found, typed, "matched-variables")
    m.same(sorted(texts), sorted(str(workflow.variable_indices(v)) for v in typed), "matched-addresses")
    for variable in typed:
        expected = []
        for other in typed:
            if other is variable:
                continue
            first, second = model.owner.get(id(variable)), model.owner.get(id(other))
            if first is not None and second is not None:
                side = any(variable is v for v in first.inputs)
                other_side = any(other is v for v in second.inputs)
                if first is second or side == other_side:
                    m.check(not workflow.variable_compatibility(variable, other), "incompatible")
                    continue
            m.check(workflow.variable_compatibility(variable, other), "compatible")
            if typematch(variable.type_, other.type_):
                expected.append(other)
        same_set(m, found[variable], expected, "matches")
        m.same(sorted(texts[str(workflow.variable_indices(variable))]), sorted(str(workflow.variable_indices(v)) for v in expected),
               "matches-addresses")
        m.ev("pairs", len(typed))


@scenario("C15", 1500, 25000, rule="graph helpers on random directed graphs, cyclic or not, against brute force")
def helpers(rng, m):
    count = rng.choice([1, 2, 3, 5, 7])
    nodes = list(range(count))
    rng.shuffle(nodes)
    graph = nx.DiGraph()
    graph.add_nodes_from(nodes)
    density = rng.choice([.1, .3, .5, .8])
    edges = [(a, b) for a in range(count) for b in range(a + 1, count) if rng.random() < density]
    if rng.random() < .15 and count > 1:
        a, b = rng.sample(range(count), 2)
        edges += [(a, b), (b, a)]
    graph.add_edges_from(edges)
    m.case(repr((nodes, edges)))
    if not nx.is_directed_acyclic_graph(graph):
        m.refuses("cycles", G.explore_tree_from_leaves, graph, errors=(NotImplementedError,))
        return
    order = m.call("explore", G.explore_tree_from_leaves, graph)
    m.same(sorted(order), sorted(nodes), "explored-once")
    for a, b in graph.edges:
        m.check(order.index(b) < order.index(a), "leaves-first", "", order)

    def longest(a, b):
        if a == b:
            return 1
        lengths = [longest(c, b) for c in graph.successors(a)]
        best = max([n for n in lengths if n], default=0)
        return best + 1 if best else 0
    begin, end = rng.choice(nodes), rng.choice(nodes)
    if begin != end and longest(begin, end):
        path = m.call("longest", G.get_longest_path, graph, begin, end)
        m.check(path[0] == begin and path[-1] == end and all(graph.has_edge(a, b) for a, b in zip(path, path[1:])), "path", "", path)
        m.check(len(path) == longest(begin, end), "longest-path", "", path)
    origins = rng.sample(nodes, rng.randint(1, count))
    ends = [n for n in rng.sample(nodes, rng.randint(1, count)) if n not in origins]
    paths = m.call("paths", G.get_paths_from_to, graph, origins, ends)
    m.same(sorted((p[0], p[-1], len(p)) for p in paths),
           sorted((o, e, longest(o, e)) for o in origins for e in ends if longest(o, e)), "paths-between")
    for component in nx.weakly_connected_components(graph):
        columns = m.call("columns", G.get_column_by_node, graph.subgraph(component))
        m.same(sorted(columns), sorted(component), "columns-nodes")
        for a, b in graph.subgraph(component).edges:
            m.check(columns[a] < columns[b], "columns-order", "", columns)
        m.same(sorted(set(columns.values())), list(range(len(set(columns.values())))), "no-empty-column")


def mixed(rng, depth):
    """ (workflow, {package: share}) """
    classes = packaged()
    blocks, pipes, shares = [], [], {}

    def add(shared, weight=1):
        for package, share in shared.items():
            shares[package] = shares.get(package, 0) + weight * share
    for i in range(rng.choice([1, 2, 3, 5])):
        kind = rng.choice(["model", "method", "sum", "nested"])
        cls = rng.choice(classes)
        package = cls.__module__.split(".", 1)[0]
        if kind == "model":
            blocks.append(B.InstantiateModel(cls, name=f"b{i}"))
            add({package: 1})
        elif kind == "method":
            blocks.append(B.ModelMethod(MethodType(cls, "grow"), name=f"b{i}"))
            add({package: 1})
        elif kind == "nested" and depth:
            inner, inner_shares = mixed(rng, depth - 1)
            blocks.append(B.WorkflowBlock(inner, name=f"b{i}"))
            add(inner_shares)
        else:
            blocks.append(B.Sum(2, name=f"b{i}"))
    rng.shuffle(blocks)
    total = sum(shares.values())
    return Workflow(blocks, pipes, output=blocks[0].outputs[0], name="mix"), {p: s / total for p, s in shares.items()}


@scenario("C15", 60, 1000, rule="shares of the packages a workflow uses: one per instantiation and method call, a nested workflow counting as one")
def packages(rng, m):
    workflow, expected = mixed(rng, rng.choice([0, 1, 2]))
    m.case(([type(b).__name__ for b in workflow.blocks], sorted(expected.items())))
    got = m.call("package-mix", workflow.package_mix)
    m.equal(sorted(got), sorted(expected), "package-mix")
    for package, share in expected.items():
        m.close(got[package], share, "package-mix")
