COMPILER = "src/pygerber/gerber/compiler/compiler.py"
STATE = "src/pygerber/gerber/ast/state_tracking_visitor.py"
HELP = '''
import sys
import shapely
from pygerber.gerber.parser import parse
from pygerber.gerber.compiler import compile
from pygerber.vm import render


def dark(text, x, y, **kw):
    shape = render(compile(parse(text), **kw), backend="shapely").shape
    return bool(shapely.contains_xy(shape, x, y))


def expect(*pairs):
    bad = [p for p in pairs if p[0] != p[1]]
    print("mismatches:", bad)
    sys.exit(1 if bad else 0)

'''
seed("arc-same-x", "P01", [(COMPILER, '''        if start_point == end_point:
            length = Vector(x=self.coordinate_i, y=self.coordinate_j).length()''',
'''        if start_x == end_x:
            length = Vector(x=self.coordinate_i, y=self.coordinate_j).length()''')],
     "a drawn arc whose start and end share the X coordinate but not the Y coordinate", "such an arc is drawn as a full circle",
     HELP + '''
T = "%FSLAX34Y34*%%MOMM*%%ADD10C,0.2*%D10*G75*X0Y10000D02*G02*X0Y-10000I0J-10000D01*M02*"
expect((dark(T, 1.0, 0), True), (dark(T, -1.0, 0), False))
''')
seed("transform-tag", "P02", [("src/pygerber/vm/types/matrix.py", '''        return str(self.mtx).encode("utf-8").hex()''',
'''        (a, b, c), (d, e, f), _ = self.mtx
        return "%".join(f"{abs(v) if i in (1, 3) else v:.9f}" for i, v in enumerate((a, b, c, d, e, f)))''')],
     "the same aperture flashed under two rotations that differ only in sign", "the second flash reuses the layer of the first rotation",
     HELP + '''
T = "%FSLAX34Y34*%%MOMM*%%ADD10R,2X0.2*%D10*%LR30*%X0Y0D03*%LR-30*%X100000Y0D03*M02*"
expect((dark(T, 10 + 0.8660 * 0.8, -0.5 * 0.8), True), (dark(T, 10 + 0.8660 * 0.8, 0.5 * 0.8), False), (dark(T, 0.866 * 0.8, 0.4), True))
''')
seed("sr-copy-order", "P03", [(COMPILER, '''        for x in range(node.open.x_repeats):
            for y in range(node.open.y_repeats):''',
'''        for y in range(node.open.y_repeats):
            for x in range(node.open.x_repeats):''')],
     "a step and repeat whose copies overlap and whose contents mix dark and clear", "copies are made row by row instead of column by column, so different copies end up on top",
     HELP + '''
T = "%FSLAX34Y34*%%MOMM*%%ADD10C,1*%D10*%SRX2Y2I2J2*%%LPD*%X0Y0D03*%LPC*%X20000Y-20000D03*%SR*%M02*"
expect((dark(T, 0, 2), True), (dark(T, 2, 0), True), (dark(T, 0, 0), True), (dark(T, 2, 2), True))
''')
seed("macro-scope-shared", "P04", [(COMPILER, '''        if node.params is None:
            scope = {}
        else:
            scope = {f"${i + 1}": param for i, param in enumerate(node.params)}

        macro = self.state.apertures.macros.get(node.name)''',
'''        macro_scopes = self.__dict__.setdefault("_macro_scopes", {})
        scope = macro_scopes.setdefault(node.name, {})
        if node.params is not None:
            scope.update({f"${i + 1}": param for i, param in enumerate(node.params)})

        macro = self.state.apertures.macros.get(node.name)''')],
     "two apertures from one macro, the second with fewer parameters (or relying on a variable still unassigned)", "variables of one macro instance leak into the next instance of the same macro",
     HELP + '''
T = "%FSLAX34Y34*%%MOMM*%%AMM*1,1,1,0,0*1,1,1,$2,0*%%ADD10M,1X5*%%ADD11M,1*%D10*X0Y0D03*D11*X200000Y0D03*M02*"
expect((dark(T, 0, 0), True), (dark(T, 5, 0), True), (dark(T, 20, 0), True), (dark(T, 25, 0), False))
''')
seed("div-right-assoc", "P05", [("src/pygerber/gerber/ast/expression_eval_visitor.py", '''        for operand in node.tail:
            operand.visit(self)
            total /= self.return_value

        self.return_value = total''',
'''        divisor = 1.0
        for operand in node.tail:
            operand.visit(self)
            divisor = self.return_value / divisor

        self.return_value = total / divisor''')],
     "a chain of at least two divisions with a non-unit divisor in the middle", "a/b/c is evaluated as a/(c/b)",
     HELP + '''
T = "%FSLAX34Y34*%%MOMM*%%AMM*1,1,1,40/2/4,0*%%ADD10M*%D10*X0Y0D03*M02*"
expect((dark(T, 5, 0), True), (dark(T, 20, 0), False))
''')
seed("unpack-j-axis", "P06", [(STATE, '''        self.state.coordinate_j = self.state.coordinate_format.unpack_y(node.value)''',
'''        self.state.coordinate_j = self.state.coordinate_format.unpack_x(node.value)''')],
     "a file whose X and Y formats differ, and an arc with a J offset", "J offsets are decoded with the X format",
     HELP + '''
T = "%FSLAX34Y35*%%MOMM*%%ADD10C,0.2*%D10*G75*X0Y0D02*G03*X0Y200000I0J100000D01*M02*"
try:
    r = dark(T, 1.0, 1.0)
except Exception as e:
    r = repr(e)
expect((r, True))
''')
seed("g90-resets-format", "P07", [(STATE, '''        super().on_g90(node)
        if self.state.coordinate_format is None:
            self.state.coordinate_format = CoordinateFormat()
''',
'''        super().on_g90(node)
        fmt = self.state.coordinate_format
        if fmt is None or fmt.coordinate_mode is CoordinateNotation.INCREMENTAL:
            self.state.coordinate_format = CoordinateFormat()
''')],
     "a format with incremental notation followed by G90", "switching back to absolute notation also resets the number of digits",
     HELP + '''
T = "%FSLIX33Y33*%%MOMM*%G90*%ADD10C,1*%D10*X5000Y0D03*M02*"
expect((dark(T, 5, 0), True))
''')
seed("attributes-aliased", "P08", [(STATE, '''        self.state.apertures.apertures[node.aperture_id] = node
        self.state.apertures.per_aperture_attributes[node.aperture_id] = (
            self.state.attributes.aperture_attributes.copy()
        )''',
'''        self.state.apertures.apertures[node.aperture_id] = node
        self.state.apertures.per_aperture_attributes[node.aperture_id] = (
            self.state.attributes.aperture_attributes
            or self.state.attributes.aperture_attributes.copy()
        )''')],
     "an aperture defined while attributes are set, followed by more attribute commands", "attributes set or deleted later change the attributes of the aperture already defined",
     HELP + '''
from pygerber.gerber.ast.state_tracking_visitor import StateTrackingVisitor
v = StateTrackingVisitor()
parse("%TAa,1*%%ADD10C,1*%%TD*%%ADD11C,1*%").visit(v)
d = v.state.apertures.per_aperture_attributes
expect((sorted(d["D10"]), ["a"]), (sorted(d["D11"]), []))
''')

FMT = "src/pygerber/gerber/formatter/formatter.py"
FH = '''
import sys
from pygerber.gerber.parser import parse
from pygerber.gerber.formatter import formats, Options, Formatter


def expect(*pairs):
    bad = [p for p in pairs if p[0] != p[1]]
    print("mismatches:", bad)
    sys.exit(1 if bad else 0)

'''
seed("fmt-signed-paren", "P09", [(FMT, '''        for operand in node.tail:
            self._write("-")
            operand.visit(self)
''', '''        for operand in node.tail:
            self._write("-")
            if isinstance(operand, Parenthesis) and isinstance(operand.inner, Add):
                # First operand of inner sum follows the sign anyway.
                operand.inner.visit(self)
                continue
            operand.visit(self)
''')],
     "a macro expression that subtracts a parenthesised sum, formatted with the original parentheses kept", "the parentheses are dropped, so the sum is no longer subtracted as a whole",
     FH + '''
out = formats(parse("%AMX*$1=1-(2+3)*1,1,$1,0,0*%"), Options(macro_split_mode="NoSplit", macro_end_in_new_line="No"))
expect(("1-(2+3)" in out or "1.0-(2.0+3.0)" in out, True))
''')
seed("fmt-strip-empty-line", "P10", [(FMT, '''            self.d03_indent = ""
            self.empty_line_before_polarity_switch = ""
''', '''            self.d03_indent = ""
''')],
     "white space stripping together with empty lines before polarity switches", "stripped output still contains line breaks before polarity switches",
     FH + '''
out = formats(parse("G01*%LPC*%M02*"), Options(strip_whitespace="StripAll", empty_line_before_polarity_switch="Yes"))
expect((out, "G01*%LPC*%M02*"))
''')
GRAMMAR = "src/pygerber/gerber/parser/pyparsing/grammar.py"
seed("node-reuse", "P11", [(GRAMMAR, '''        def _(s: str, loc: int, tokens: pp.ParseResults) -> Node:
            return self.get_cls(node_type)(
                source_info=SourceInfo(
                    source=s, location=loc, length=sum(len(t) for t in tokens.as_list())
                ),
                **tokens.as_dict(),
                **kwargs,
            )

        return _''', '''        reusable: dict[tuple[int, str], Node] = {}

        def _(s: str, loc: int, tokens: pp.ParseResults) -> Node:
            values = tokens.as_dict()
            # Commands without parameters are all alike, there is no need to
            # create separate objects for them.
            key = (id(s), "".join(map(str, tokens.as_list())))
            if not values and key in reusable:
                return reusable[key]
            node = self.get_cls(node_type)(
                source_info=SourceInfo(
                    source=s, location=loc, length=sum(len(t) for t in tokens.as_list())
                ),
                **values,
                **kwargs,
            )
            if not values:
                reusable[key] = node
            return node

        return _''')],
     "the same parameterless command (such as G01*) occurring more than once in a file", "later occurrences report the location of the first one",
     FH + '''
nodes = parse("G01*\\nG02*\\nG01*\\n").nodes
expect(([n.source_info.line for n in nodes], [1, 2, 3]), ([n.source_info.location for n in nodes], [0, 5, 10]))
''')
seed("resilient-splits-lines", "P12", [(GRAMMAR, '''pp.Combine(pp.Regex(r".+"))''', '''pp.Combine(pp.Regex(r"[^*\\n]+\\*?%?|[*%]+"))''')],
     "an unreadable line that contains several statements", "the line is split into several invalid nodes, and readable-looking parts of it are executed",
     FH + '''
nodes = parse("G01*\\nG99*G04x*\\nM02*\\n", resilient=True).nodes
expect(([type(n).__name__ for n in nodes], ["G01", "Invalid", "M02"]))
''')
seed("finder-ab-close", "P19", [("src/pygerber/gerber/ast/node_finder.py", '''        """Handle `AB` root node."""
        self._bin_search([node.open, *node.nodes, node.close])''', '''        """Handle `AB` root node."""
        self._bin_search([node.open, *node.nodes])''')],
     "a position on the command that closes an aperture block", "the last command inside the block is found instead",
     FH + '''
from pygerber.gerber.ast.node_finder import NodeFinder, OneBasedPosition
f = NodeFinder(parse("G01*\\n%ABD10*%\\nD11*\\n%AB*%\\nM02*\\n"))
expect((type(f.find_node(OneBasedPosition(line=4, column=2))).__name__, "ABclose"), (type(f.find_node(OneBasedPosition(line=3, column=1))).__name__, "Dnn"))
''')
seed("eof-lost-on-error", "P23", [("src/pygerber/gerber/ast/ast_visitor.py", '''        try:
            for command in node.nodes:
                try:
                    command.visit(self)
                except Exception as e:  # noqa: PERF203
                    if self.on_exception(command, e):
                        raise
        finally:
            self.on_end_of_file(node)
        return node''', '''        for command in node.nodes:
            try:
                command.visit(self)
            except Exception as e:  # noqa: PERF203
                if self.on_exception(command, e):
                    raise
        self.on_end_of_file(node)
        return node''')],
     "a callback that fails while the exception callback asks to re-raise", "the end of file callback is never called",
     FH + '''
from pygerber.gerber.ast.ast_visitor import AstVisitor
ends = []


class V(AstVisitor):
    def on_g01(self, node):
        raise ValueError

    def on_end_of_file(self, node):
        ends.append(1)


try:
    V().on_file(parse("G02*G01*G03*"))
except ValueError:
    pass
expect((len(ends), 1))
''')
BUILDER = "src/pygerber/builder/gerber.py"
seed("trace-width-key", "P13", [(BUILDER, '''        if (aperture := self._trace_pads.get(width)) is None:
            aperture = self.new_pad().circle(width)
            self._trace_pads[width] = aperture''', '''        key = round(width, 3)
        if (aperture := self._trace_pads.get(key)) is None:
            aperture = self.new_pad().circle(width)
            self._trace_pads[key] = aperture''')],
     "two traces whose widths differ by less than a micrometre", "the second trace is drawn with the width of the first",
     FH + '''
from pygerber.builder.gerber import GerberX3Builder
b = GerberX3Builder()
b.add_line_trace(0.1, (0, 0), (1, 1))
b.add_line_trace(0.1004, (1, 1), (2, 2))
nodes = b.get_code().raw.nodes
expect(([float(n.diameter) for n in nodes if type(n).__name__ == "ADC"], [0.1, 0.1004]))
''')
seed("cutout-aperture-memory", "P13", [(BUILDER, '''            selected_aperture is not None
            and self._selected_aperture != selected_aperture
        ):
            self._selected_aperture = selected_aperture''', '''            selected_aperture is not None
            and self._selected_aperture != selected_aperture
        ):
            if self._selected_aperture is None or polarity != Polarity.Clear:
                self._selected_aperture = selected_aperture''')],
     "a cutout pad between two uses of another aperture", "the aperture in use before the cutout is assumed to be still selected, so the next draw uses the cutout shape",
     FH + '''
from pygerber.builder.gerber import GerberX3Builder
b = GerberX3Builder()
p, q = b.new_pad().circle(1.0), b.new_pad().rectangle(1.0, 2.0)
b.add_pad(p, (0, 0))
b.add_cutout_pad(q, (1, 0))
b.add_pad(p, (2, 0))
nodes = b.get_code().raw.nodes
expect(([n.aperture_id for n in nodes if type(n).__name__ == "Dnn"], ["D10", "D11", "D10"]))
''')
seed("paste-into-finished", "P14", [("src/pygerber/builder/rvmc.py", '''        """Paste another layer into this layer."""
        self._check_not_finalized_in_add()
''', '''        """Paste another layer into this layer."""
        if self._active_layer_id is not None:
            self._check_not_finalized_in_add()
''')],
     "pasting into a layer whose context was left already", "the paste is accepted and put behind the end of the layer, so it lands in the enclosing layer or is lost",
     FH + '''
from pygerber.builder.rvmc import RvmcBuilder
b = RvmcBuilder()
try:
    with b.layer() as main:
        with main.layer("a") as a:
            a.circle((0, 0), 1, is_negative=False)
        with main.layer("b") as x:
            x.circle((0, 0), 2, is_negative=False)
        x.paste(a, (5, 5), is_negative=False)
    ok = False
except RuntimeError:
    ok = True
expect((ok, True))
''')
seed("negative-paste-last-only", "P15", [("src/pygerber/vm/shapely/vm.py", '''            for i, j in dest_idx:
                self.layer.shape[j] = self.layer.shape[j].difference(
                    transformed_shape[i]
                )''', '''            for i, j in {int(j): int(i) for i, j in dest_idx}.items():
                self.layer.shape[i] = self.layer.shape[i].difference(
                    transformed_shape[j]
                )''')],
     "a layer with several shapes pasted negative over one shape that touches more than one of them", "only one of the pasted shapes is cut out",
     FH + '''
import shapely
from pygerber.vm import RVMC, render
from pygerber.vm.commands import EndLayer, PasteLayer, Shape, StartLayer
from pygerber.vm.types import LayerID
prog = RVMC(commands=[
    StartLayer(id=LayerID(id="a")),
    Shape.new_circle((-2, 0), 1, is_negative=False),
    Shape.new_circle((2, 0), 1, is_negative=False),
    EndLayer(),
    StartLayer(id=LayerID(id="%main%")),
    Shape.new_rectangle((0, 0), 10, 4, is_negative=False),
    PasteLayer.new("a", (0, 0), is_negative=True),
    EndLayer(),
])
shape = render(prog, backend="shapely").shape
expect(([bool(shapely.contains_xy(shape, x, 0)) for x in (-2, 0, 2)], [False, True, False]))
''')
API = "src/pygerber/gerber/api/"
seed("tiff-loses-alpha", "P16", [(API + "_gerber_file.py", '''        self.get_image().save(fp=destination, format="TIFF", **kwargs)''',
'''        self.get_image().convert("RGB").save(fp=destination, format="TIFF", **kwargs)''')],
     "a TIFF of an image whose style is transparent somewhere", "the transparency of the style is lost in TIFF files",
     FH + '''
import io
from PIL import Image
from pygerber.gerber.api import GerberFile, Style
img = GerberFile.from_str("%FSLAX34Y34*%%MOMM*%%ADD10C,4*%D10*X0Y0D03*M02*").render_with_pillow(Style.presets.COPPER_ALPHA, 10)
b = io.BytesIO()
img.save(b, "tiff")
expect((Image.open(b).convert("RGBA").getpixel((0, 0))[3], 0))
''')
seed("corner-paste-opaque", "P20", [(API + "_composite_view.py", '''                mask=sub_image.get_image().getchannel("A"),
''', '''                mask=(
                    sub_image.get_image().getchannel("A")
                    if sub_image.get_image().size != image.size
                    or sub_image is sub_images[-1]
                    else None
                ),
''')],
     "a transparent file as large as the whole view which is neither the first nor the last of it", "the transparent parts of that file wipe out the files below it",
     FH + '''
from pygerber.gerber.api import CompositeView, FileTypeEnum, GerberFile
H = "%FSLAX34Y34*%%MOMM*%"
small = GerberFile.from_str(H + "%ADD10C,2*%D10*X0Y0D03*M02*", FileTypeEnum.COPPER)
frame = GerberFile.from_str(H + "%ADD10R,8X8*%%ADD11R,7X7*%D10*X0Y0D03*%LPC*%D11*X0Y0D03*M02*", FileTypeEnum.PROFILE)
dot = GerberFile.from_str(H + "%ADD10C,1*%D10*X30000Y0D03*M02*", FileTypeEnum.SILK)
img = CompositeView([small, frame, dot]).render_with_pillow(10).get_image()
expect((img.getpixel((40, 40)), (40, 143, 40, 255)))
''')
seed("style-remembered", "P21", [(API + "_gerber_file.py", '''        return self._color_map[self._file_type]
''', '''        if self._cached_style is None:
            self._cached_style = self._color_map[self._file_type]

        return self._cached_style
'''), (API + "_gerber_file.py", '''        self._cached_final_state: Optional[State] = None
        self._color_map = DEFAULT_ALPHA_COLOR_MAP
''', '''        self._cached_final_state: Optional[State] = None
        self._cached_style: Optional[Style] = None
        self._color_map = DEFAULT_ALPHA_COLOR_MAP
''')],
     "a file drawn, then given another colour map, then drawn again", "the second drawing still uses the first colour map",
     FH + '''
from pygerber.gerber.api import Color, FileTypeEnum, GerberFile, Style
f = GerberFile.from_str("%FSLAX34Y34*%%MOMM*%%ADD10R,4X4*%D10*X0Y0D03*M02*", FileTypeEnum.COPPER)
f.render_with_pillow()
f.set_color_map({FileTypeEnum.COPPER: Style(foreground=Color.from_hex("#010203"), background=Color.from_hex("#000000"))})
expect((f.render_with_pillow().get_image().getpixel((40, 40)), (1, 2, 3, 255)))
''')
seed("profile-order", "P24", [(API + "_gerber_job_file.py", '''            if file_type == FileTypeEnum.PROFILE:
                all_layers.append(gerber_file)
                continue
''', '''            if file_type == FileTypeEnum.PROFILE:
                all_layers.append(gerber_file)
                for inner_layer in inner.values():
                    inner_layer[file_type] = gerber_file
                continue
'''), (API + "_gerber_job_file.py", '''            bottom[file.file_type] = file

            for inner_layer in inner.values():
                inner_layer[file.file_type] = file
''', '''            bottom[file.file_type] = file
''')],
     "a job file that lists an inner layer after the profile", "that inner layer's view has no profile",
     FH + '''
import json, tempfile
from pathlib import Path
from pygerber.gerber.api import GerberJobFile
with tempfile.TemporaryDirectory() as d:
    d = Path(d)
    (d / "a.gbr").write_text("M02*")
    files = [{"Path": "a.gbr", "FileFunction": f, "FilePolarity": "Positive"} for f in ("Profile", "Copper,L2,Inr")]
    (d / "j.gbrjob").write_text(json.dumps({"Header": {"GenerationSoftware": {"Vendor": "v", "Application": "a", "Version": "1"}, "CreationDate": "x"},
        "GeneralSpecs": {"ProjectId": {"Name": "n", "GUID": "g", "Revision": "r"}, "Size": {"X": 1.0, "Y": 2.0}, "LayerNumber": 4, "BoardThickness": 1.6},
        "FilesAttributes": files, "MaterialStackup": []}))
    expect(([f.file_type.name for f in GerberJobFile.from_file(d / "j.gbrjob").to_project().inner[0].files], ["COPPER", "PROFILE"]))
''')
LINT = "src/pygerber/gerber/linter/"
seed("linter-remembers", "P17", [(LINT + "linter.py", '''        self.rules = rules
''', '''        self.rules = rules
        for rule in self.rules:
            rule.reset()
'''), (LINT + "linter.py", '''            rule.reset()
            self._register_rule(rule)
''', '''            self._register_rule(rule)
''')],
     "one linter given two documents, the second starting with the interpolation command the first ended with", "the first command of the second document is reported as redundant",
     FH + '''
from pygerber.gerber.linter.linter import Linter
from pygerber.gerber.linter.rules import GRB001
from pygerber.gerber.parser import parse
l = Linter([GRB001()])
ast = parse("G01*X1Y1D01*G02*")
expect((len(list(l.lint(ast))), 0), (len(list(l.lint(parse("G02*G01*")))), 0))
''')
TFN = "src/pygerber/gerber/ast/nodes/attribute/TF.py"
seed("md5-keeps-cr", "P26", [(TFN, '''            .replace("\\n", "")
            .replace("\\r", "")
''', '''            .replace("\\r\\n", "")
            .replace("\\n", "")
''')],
     "a file with a lone carriage return before the MD5 attribute", "its valid hash is refused",
     FH + '''
import hashlib
h = hashlib.md5(b"G04 a*D10*").hexdigest()
ast = parse(f"G04 a*\\rD10*\\n%TF.MD5,{h}*%M02*")
expect((ast.nodes[2].check_source_hash(), True))
''')
GF = API + "_gerber_file.py"
seed("stale-final-state", "P22", [(GF, '''        self._cached_rvmc = None
        self._cached_final_state = None
''', '''        self._cached_rvmc = None
''')],
     "a file rendered, then rendered again after its parser options changed so that the unit command is read now", "the image space is in the units of the first reading",
     FH + '''
from pygerber.gerber.api import GerberFile
src = "%FSLAX36Y36*%\\nG04 *\\n%ADD10C,1*%\\nD10*\\nX0Y0D03*\\njunk\\n%MOIN*%\\nX1000000Y0D03*\\nM02*\\n"
def space(f):
    return str(f.render_with_shapely().get_image_space())
f = GerberFile.from_str(src).set_parser_options(strict=False)
space(f)
f.set_parser_options(resilient=True)
expect((space(f), space(GerberFile.from_str(src).set_parser_options(resilient=True))))
''')
CLI = "src/pygerber/console/gerber.py"
seed("webp-lossless-quality", "P25", [(CLI, '''        result.save_webp(output, lossless=lossless, quality=quality)
''', '''        opts: dict[str, Any] = {"lossless": lossless}
        if not lossless:
            opts["quality"] = quality
        result.save_webp(output, **opts)
''')],
     "webp conversion with both --lossless and --quality", "the quality asked for is ignored and the API's default used",
     FH + '''
import tempfile
from pathlib import Path
from unittest import mock
from click.testing import CliRunner
from pygerber.console.commands import main
from pygerber.gerber.api._gerber_file import PillowImage
import pygerber.gerber.api as api
got = []
def fake(self, dst, *, lossless=False, quality=80):
    got.append((bool(lossless), quality))
with tempfile.TemporaryDirectory() as d:
    d = Path(d)
    (d / "a.gbr").write_text("%FSLAX24Y24*%%MOMM*%%ADD10C,1*%D10*X0Y0D03*M02*")
    with mock.patch.object(PillowImage, "save_webp", fake):
        r = CliRunner().invoke(main, ["gerber", "convert", "webp", str(d / "a.gbr"), "-o", str(d / "o.webp"), "-l", "-q", "20"])
expect((r.exit_code, 0), (got, [(True, 20)]))
''')
GR = "src/pygerber/gerber/parser/pyparsing/grammar.py"
seed("override-cache-shared", "P28", [(GR, '''        """Get the class of the node."""
        return self.ast_node_class_overrides.get(node_cls.__qualname__, node_cls)  # type: ignore[return-value]
''', '''        """Get the class of the node."""
        if not self.ast_node_class_overrides:
            return node_cls
        # Looked up for every node of the tree, hence remembered.
        if node_cls not in self._overrides_lookup:
            self._overrides_lookup[node_cls] = self.ast_node_class_overrides.get(
                node_cls.__qualname__, node_cls
            )
        return self._overrides_lookup[node_cls]

    _overrides_lookup: dict[Type[Node], Any] = {}  # noqa: RUF012
''')],
     "two parsers with different node classes for one kind in one process", "the second parser makes nodes of the first parser's class",
     FH + '''
from pygerber.gerber.ast.nodes import D01, D02
from pygerber.gerber.parser import parse as P
class A(D01): pass
class B(D01): pass
src = "X1Y1D01*X2Y2D02*M02*"
a = P(src, ast_node_class_overrides={"D01": A})
b = P(src, ast_node_class_overrides={"D01": B})
c = P(src)
expect(([type(n).__name__ for n in a.nodes], ["A", "D02", "M02"]), ([type(n).__name__ for n in b.nodes], ["B", "D02", "M02"]), ([type(n).__name__ for n in c.nodes], ["D01", "D02", "M02"]))
''')
LS = "src/pygerber/gerber/language_server/_server/documents/gerber.py"
seed("change-keeps-cache", "P18", [(LS, '''        """Handle the document change event."""
        self.flush_cached_values()
        self.load_ast_from_uri(params.text_document.uri)
''', '''        """Handle the document change event."""
        # Tree is parsed again only when the text differs.
        self.load_ast_from_uri(params.text_document.uri)
''')],
     "apertures completed, then the apertures of the document changed, then completed again", "apertures of the earlier version are offered",
     FH + '''
import asyncio
import lsprotocol.types as lspt
from unittest.mock import MagicMock
from pygerber.gerber.language_server._server.documents.gerber import GerberDocument
text = {}
gls = MagicMock()
gls.workspace.get_document = lambda uri: MagicMock(source=text["now"])
gls.workspace.get_text_document = gls.workspace.get_document
def labels(doc):
    r = asyncio.run(doc.on_completion(lspt.CompletionParams(lspt.TextDocumentIdentifier("a.gbr"), lspt.Position(4, 0))))
    return sorted(i.label for i in r.items)
def src(ap):
    return f"%FSLAX24Y24*%\\n%MOMM*%\\n%ADD{ap}C,1*%\\nX0Y0D02*\\nD\\nM02*\\n"
def opened(s):
    text["now"] = s
    d = GerberDocument(gls)
    asyncio.run(d.on_open(lspt.DidOpenTextDocumentParams(lspt.TextDocumentItem("a.gbr", "gerber", 1, s))))
    return d
d = opened(src(10))
labels(d)
text["now"] = src(33)
asyncio.run(d.on_change(lspt.DidChangeTextDocumentParams(lspt.VersionedTextDocumentIdentifier(2, "a.gbr"), [])))
expect((labels(d), labels(opened(src(33)))))
''')
VT = "src/pygerber/vm/types/"
seed("vector-le-strict", "P27", [(VT + "vector.py", '''            return self.x <= other.x and self.y <= other.y
''', '''            return self == other or self < other
''')],
     "vectors that agree in one coordinate only", "a vector not greater in either coordinate is not less or equal",
     FH + '''
from pygerber.vm.types.vector import Vector
v = [Vector(x=x, y=y) for x in range(3) for y in range(3)]
expect(*[(a <= b, a.x <= b.x and a.y <= b.y) for a in v for b in v])
''')
