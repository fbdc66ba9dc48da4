import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
def plan(body): return '#include "drv.hh"\n'+body
DECL='''<GlobalDeclarations><StateDeclaration><Name>a</Name><Return><Name>r</Name><Type>Boolean</Type></Return></StateDeclaration><StateDeclaration><Name>b</Name><Return><Name>r</Name><Type>Boolean</Type></Return></StateDeclaration><StateDeclaration><Name>i</Name><Return><Name>r</Name><Type>Integer</Type></Return></StateDeclaration><CommandDeclaration><Name>go</Name><Return><Name>r</Name><Type>Integer</Type></Return></CommandDeclaration></GlobalDeclarations>'''
def look(n): return f'<LookupOnChange><Name><StringValue>{n}</StringValue></Name></LookupOnChange>'
def cond(k,n): return f'<{k}>{look(n)}</{k}>'

# 1: exit conditions at two levels
seed('exit-two-levels','P14',[('src/exec/ListNode.cc','''      if (getExitCondition()) {
        if (getAncestorExitCondition()) {
          m_conditions[ancestorExitIdx] =
            makeFunction(BooleanOr::instance(),
                         getExitCondition(),
                         getAncestorExitCondition(),
                         false,
                         false);
          m_garbageConditions[ancestorExitIdx] = true;
        }
        else 
          m_conditions[ancestorExitIdx] = getExitCondition();
      }''','''      if (getExitCondition()) {
        m_conditions[ancestorExitIdx] = getExitCondition();
        m_garbageConditions[ancestorExitIdx] = false;
      }''')],
 'three levels of nodes, the two upper ones both with an exit condition, and the outermost one becoming true for a moment only',
 'the exit of the outermost node does not reach the innermost one',
 plan(f'''
int main() {{
  Drv d;
  for (char const *n : {{"a", "b", "c"}}) d.world[n] = Value(false);
  d.load(R"(<PlexilPlan>{DECL}<Node NodeType="NodeList"><NodeId>root</NodeId><ExitCondition>{look("a")}</ExitCondition><NodeBody><NodeList>
<Node NodeType="NodeList"><NodeId>mid</NodeId><ExitCondition>{look("b")}</ExitCondition><NodeBody><NodeList>
<Node NodeType="Empty"><NodeId>leaf</NodeId><EndCondition>{look("c")}</EndCondition></Node>
</NodeList></NodeBody></Node></NodeList></NodeBody></Node></PlexilPlan>)");
  d.run();
  d.set("a", Value(true)); d.run();
  d.dump();
  EXPECT(d.saw("leaf:FINISHED:INTERRUPTED:PARENT_EXITED"));
  return 0;
}}
'''))

# 2: values returned after the command ended are assigned
seed('late-return-value','P17',[('src/intfc/CommandImpl.cc','''    if (!m_active || !m_dest)
      return;
    m_dest->asAssignable()''','''    if (!m_dest)
      return;
    m_dest->asAssignable()''')],
 'a command whose return value arrives after its node has finished, while the variable is still in scope',
 'the variable is overwritten by the late answer',
 plan(f'''
int main() {{
  Drv d;
  d.world["a"] = Value(false); d.world["b"] = Value(true);
  d.load(R"(<PlexilPlan>{DECL}<Node NodeType="NodeList"><NodeId>root</NodeId><VariableDeclarations><DeclareVariable><Name>x</Name><Type>Integer</Type><InitialValue><IntegerValue>5</IntegerValue></InitialValue></DeclareVariable></VariableDeclarations><NodeBody><NodeList>
<Node NodeType="Command"><NodeId>c</NodeId><NodeBody><Command><IntegerVariable>x</IntegerVariable><Name><StringValue>go</StringValue></Name></Command></NodeBody></Node>
<Node NodeType="Empty"><NodeId>w</NodeId><StartCondition>{look("a")}</StartCondition><PostCondition><EQNumeric><IntegerVariable>x</IntegerVariable><IntegerValue>5</IntegerValue></EQNumeric></PostCondition></Node>
</NodeList></NodeBody></Node></PlexilPlan>)");
  d.run();
  EXPECT(d.cmds.size() == 1);
  commandHandleReturn(d.cmds[0], COMMAND_SENT_TO_SYSTEM);
  d.run();
  EXPECT(d.saw("c:FINISHED:SUCCESS:NO_FAILURE"));
  commandReturn(d.cmds[0], Value(7));
  d.run();
  d.set("a", Value(true));
  d.run();
  d.dump();
  EXPECT(d.saw("w:FINISHED:SUCCESS:NO_FAILURE"));
  return 0;
}}
'''))

# 3: release wakes only the first waiter
seed('release-wakes-first','P16',[('src/expr/Reservable.cc','''      for (NodeConnector *n : m_waiters)
        n->notifyResourceAvailable();''','''      if (!m_waiters.empty())
        m_waiters.front()->notifyResourceAvailable();''')],
 'two nodes waiting for a mutex, where the one which came first stops being eligible before the mutex is released',
 'the other waiting node is never considered although the only mutex it needs is free',
 plan(f'''
int main() {{
  Drv d;
  for (char const *n : {{"a", "b", "p", "q"}}) d.world[n] = Value(false);
  d.load(R"(<PlexilPlan>{DECL}<Node NodeType="NodeList"><NodeId>root</NodeId><VariableDeclarations><DeclareMutex><Name>m</Name></DeclareMutex><DeclareMutex><Name>k</Name></DeclareMutex></VariableDeclarations><NodeBody><NodeList>
<Node NodeType="Empty"><NodeId>h</NodeId><UsingMutex><Name>m</Name></UsingMutex><EndCondition>{look("a")}</EndCondition></Node>
<Node NodeType="Empty"><NodeId>g</NodeId><UsingMutex><Name>k</Name></UsingMutex><EndCondition>{look("b")}</EndCondition></Node>
<Node NodeType="Empty"><NodeId>p</NodeId><UsingMutex><Name>m</Name></UsingMutex><StartCondition>{look("p")}</StartCondition></Node>
<Node NodeType="Empty"><NodeId>q</NodeId><UsingMutex><Name>m</Name></UsingMutex><StartCondition>{look("q")}</StartCondition></Node>
</NodeList></NodeBody></Node></PlexilPlan>)");
  d.run();
  d.set("p", Value(true)); d.run();
  d.set("q", Value(true)); d.run();
  d.set("p", Value(false)); d.run();
  d.set("a", Value(true)); d.run();
  d.dump();
  EXPECT(d.saw("q:FINISHED:SUCCESS:NO_FAILURE"));
  return 0;
}}
'''))


seed('assign-same-after-unknown','P10',[('src/expr/UserVariable.cc','''  void UserVariable<T>::setValueImpl(T const &value)
  {
   bool changed = !m_known || value != m_value;''','''  void UserVariable<T>::setValueImpl(T const &value)
  {
   bool changed = value != m_value;''')],
 'a variable which held a value, became unknown, and is assigned the same value again, with a condition listening to it',
 'the listeners are not told that the variable is known again',
 '''#include "UserVariable.hh"
#include "ExpressionListener.hh"
#include "Value.hh"
#include <iostream>
using namespace PLEXIL;
struct L : ExpressionListener { int n = 0; void notifyChanged() override { ++n; } };
int main() {
  IntegerVariable v("v"); L l; static_cast<Expression &>(v).addListener(&l);
  v.activate();
  v.setValue(Value(3)); v.setUnknown();
  int n = l.n; v.setValue(Value(3));
  int r = v.isKnown() && l.n > n ? 0 : 1;
  static_cast<Expression &>(v).removeListener(&l);
  std::cerr << (r ? "no notification\\n" : "");
  return r;
}
''',drv=False)

seed('order-unknown-element','P01',[('src/value/ArrayImpl.cc','''      if (!aKnown && bKnown)
        return true; // unknown < known
      if (aKnown && !bKnown)
        return false;
      if (!aKnown)
        continue; // neither known

      // Compare values
      if ((*aVec)[i] < (*bVec)[i])
        return true;
''','''      if (!aKnown && bKnown)
        return true; // unknown < known
      if (!aKnown)
        continue; // neither known

      // Compare values
      if ((*aVec)[i] < (*bVec)[i])
        return true;
''')],
 'two arrays which first differ at an element known in the left and unknown in the right one, where the unknown one last held a greater value',
 'both arrays are less than the other',
 '''#include "Value.hh"
#include "ArrayImpl.hh"
using namespace PLEXIL;
int main() {
  IntegerArray a(1, 1), b(1, 9); b.setElementUnknown(0);
  Value x(a), y(b);
  return (y < x && !(x < y)) ? 0 : 1;
}
''',drv=False)

seed('real-to-int-max','P08',[('src/expr/ConversionOperators.cc','''        || reel > std::numeric_limits<Integer>::max())''','''        || reel >= std::numeric_limits<Integer>::max())''')],
 'a Real which is exactly the greatest Integer',
 'the conversion is unknown although the value is representable',
 '''#include "ConversionOperators.hh"
#include "Constant.hh"
#include "Function.hh"
#include <iostream>
using namespace PLEXIL;
int main() {
  RealConstant c(2147483647.0); c.activate();
  Function *f = makeFunction(RealToInteger::instance(), &c, false); f->activate();
  Integer r = 0;
  return f->getValue(r) && r == 2147483647 ? 0 : 1;
}
''',drv=False)

seed('array-reentry','P11',[('src/expr/ArrayVariable.cc','''        if (m_value) {
          m_value->reset(); // to all unknown
          if (m_value->size()''','''        if (m_value) {
          if (m_value->size()''')],
 'an array variable without initial value whose scope is left and entered again',
 'the elements assigned during the first pass are still known in the second',
 '''#include "ArrayVariable.hh"
#include "Constant.hh"
#include "Value.hh"
using namespace PLEXIL;
int main() {
  IntegerArrayVariable v("v", new IntegerConstant(2), true);
  v.activate();
  v.setElement(1, Value(4));
  v.deactivate(); v.activate();
  return v.elementIsKnown(1) ? 1 : 0;
}
''',drv=False)

seed('remove-listener-unhooks','P12',[('src/expr/Propagator.cc','''    // If ptr was our last listener, remove this from subexpressions
    if (!hasListeners()) {
      ListenableUnaryOperator removeListenerHelper =
        [this, &removeListenerHelper](Listenable *exp) -> void
        {
          if (exp->isPropagationSource())
            exp->removeListener(this);
          else
            exp->doSubexprs(removeListenerHelper);
        };
      doSubexprs(removeListenerHelper);
    }''','''    // Remove this from subexpressions
    ListenableUnaryOperator removeListenerHelper =
      [this, &removeListenerHelper](Listenable *exp) -> void
      {
        if (exp->isPropagationSource())
          exp->removeListener(this);
        else
          exp->doSubexprs(removeListenerHelper);
      };
    doSubexprs(removeListenerHelper);''')],
 'an expression with two listeners, one of which is removed',
 'the remaining listener is not notified any more',
 '''#include "UserVariable.hh"
#include "BooleanOperators.hh"
#include "Function.hh"
#include "ExpressionListener.hh"
#include "Value.hh"
using namespace PLEXIL;
struct L : ExpressionListener { int n = 0; void notifyChanged() override { ++n; } };
int main() {
  auto *v = new BooleanVariable("v");
  Expression *f = makeFunction(BooleanNot::instance(), v, false);
  L a, b; f->addListener(&a); f->addListener(&b);
  f->activate(); v->activate();
  f->removeListener(&a);
  int n = b.n; v->setValue(Value(true));
  return b.n > n ? 0 : 1;
}
''',drv=False)

seed('timepoint-same-time','P18',[('src/exec/NodeTimepointValue.cc','''    m_time = newval;
    m_known = true;
    publishChange();
  }''','''    bool changed = (m_time != newval);
    m_time = newval;
    m_known = true;
    if (changed)
      publishChange();
  }''')],
 'a node which is reset and reaches the same state again within one step, so that its timepoint becomes known again with the same time',
 'the condition which uses the timepoint is not looked at again when it becomes known',
 '''#include "NodeTimepointValue.hh"
#include "ExpressionListener.hh"
using namespace PLEXIL;
struct L : ExpressionListener { int n = 0; void notifyChanged() override { ++n; } };
int main() {
  NodeTimepointValue v(nullptr, EXECUTING_STATE, false); L l; static_cast<Expression &>(v).addListener(&l); v.activate();
  v.setValue(2.0); v.reset();
  int n = l.n; v.setValue(2.0);
  int r = v.isKnown() && l.n > n ? 0 : 1;
  static_cast<Expression &>(v).removeListener(&l);
  return r;
}
''',drv=False)

seed('save-at-execute','P15',[('src/exec/Assignment.cc','''    m_dest->saveCurrentValue();
    m_value = m_rhs->toValue();''','''    m_value = m_rhs->toValue();'''),('src/exec/Assignment.cc','''    m_dest->setValue(m_value);
    m_ack.''','''    m_dest->saveCurrentValue();
    m_dest->setValue(m_value);
    m_ack.''')],
 'an assignment to an array element in the same step as an earlier assignment to the index variable of that element',
 'another element than the one the node referred to when it began to execute is assigned',
 plan(f'''
int main() {{
  Drv d;
  d.load(R"(<PlexilPlan>{DECL}<Node NodeType="NodeList"><NodeId>root</NodeId><VariableDeclarations><DeclareVariable><Name>k</Name><Type>Integer</Type><InitialValue><IntegerValue>0</IntegerValue></InitialValue></DeclareVariable><DeclareArray><Name>ar</Name><Type>Integer</Type><MaxSize>2</MaxSize><InitialValue><ArrayValue Type="Integer"><IntegerValue>5</IntegerValue><IntegerValue>6</IntegerValue></ArrayValue></InitialValue></DeclareArray></VariableDeclarations><NodeBody><NodeList>
<Node NodeType="Assignment"><NodeId>x</NodeId><NodeBody><Assignment><IntegerVariable>k</IntegerVariable><NumericRHS><IntegerValue>1</IntegerValue></NumericRHS></Assignment></NodeBody></Node>
<Node NodeType="Assignment"><NodeId>y</NodeId><NodeBody><Assignment><ArrayElement><Name>ar</Name><Index><IntegerVariable>k</IntegerVariable></Index></ArrayElement><NumericRHS><IntegerValue>9</IntegerValue></NumericRHS></Assignment></NodeBody></Node>
<Node NodeType="Empty"><NodeId>w</NodeId><StartCondition><AND><Finished><NodeRef dir="sibling">x</NodeRef></Finished><Finished><NodeRef dir="sibling">y</NodeRef></Finished></AND></StartCondition><PostCondition><EQNumeric><ArrayElement><Name>ar</Name><Index><IntegerValue>0</IntegerValue></Index></ArrayElement><IntegerValue>9</IntegerValue></EQNumeric></PostCondition></Node>
</NodeList></NodeBody></Node></PlexilPlan>)");
  d.run(); d.dump();
  EXPECT(d.saw("w:FINISHED:SUCCESS:NO_FAILURE"));
  return 0;
}}
'''))
