//! Reads the library's printed notation back, with the usual precedence.
//!
//! ```text
//! expr   := ['-'] term (('+' | '-') term)*
//! term   := factor (('∘' | '⊗' | ':' | '/') factor)*        left associative
//! factor := '-' factor | power
//! power  := atom ['^' factor]                              right associative
//! atom   := number | name | name '(' expr ')' | '(' expr ')' | '|' expr '|' | '⟨' expr ',' expr '⟩'
//!         | '𝑒' | 'π' | '∞' | '½' | '𝑖' atom | 'Σ_i' '(' expr ')' '_i'
//! ```
use crate::fld::Fld;

pub struct Reader<'a, F> {
    s: Vec<char>,
    at: usize,
    vars: &'a dyn Fn(&str) -> Option<F>,
}

type R<F> = Result<F, String>;

fn infinity<F: Fld>() -> F {
    F::infinity()
}

impl<'a, F: Fld> Reader<'a, F> {
    fn new(text: &str, vars: &'a dyn Fn(&str) -> Option<F>) -> Self {
        Reader { s: text.chars().filter(|c| !c.is_whitespace()).collect(), at: 0, vars }
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.at).copied()
    }
    fn eat(&mut self, c: char) -> bool {
        let hit = self.peek() == Some(c);
        if hit {
            self.at += 1;
        }
        hit
    }
    fn want(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", c, self.at))
        }
    }
    fn word(&mut self, w: &str) -> bool {
        let w: Vec<char> = w.chars().collect();
        let hit = self.s[self.at..].starts_with(&w);
        if hit {
            self.at += w.len();
        }
        hit
    }
    fn expr(&mut self) -> R<F> {
        let mut x = self.term()?;
        loop {
            if self.eat('+') {
                x = x + self.term()?;
            } else if self.eat('-') {
                x = x - self.term()?;
            } else {
                return Ok(x);
            }
        }
    }
    fn term(&mut self) -> R<F> {
        let mut x = self.factor()?;
        loop {
            if self.eat('∘') || self.eat('⊗') || self.eat(':') {
                x = x * self.factor()?;
            } else if self.eat('/') {
                x = x / self.factor()?;
            } else {
                return Ok(x);
            }
        }
    }
    fn factor(&mut self) -> R<F> {
        if self.eat('-') {
            return Ok(-self.factor()?);
        }
        self.power()
    }
    fn power(&mut self) -> R<F> {
        // The exponential has its own symbol.
        if self.eat('𝑒') {
            return if self.eat('^') { Ok(self.factor()?.exp()) } else { Ok(F::lit(1, 1).exp()) };
        }
        let x = self.atom()?;
        if self.eat('^') {
            let e = self.factor()?;
            return Ok(num_traits::Pow::pow(x, e));
        }
        Ok(x)
    }
    fn bracketed(&mut self) -> R<F> {
        self.want('(')?;
        let x = self.expr()?;
        self.want(')')?;
        Ok(x)
    }
    fn number(&mut self) -> R<F> {
        let (mut n, mut d, mut dot, mut any) = (0i128, 1i128, false, false);
        while let Some(c) = self.peek() {
            if let Some(k) = c.to_digit(10) {
                n = n * 10 + k as i128;
                if dot {
                    d *= 10;
                }
                any = true;
            } else if c == '.' && !dot {
                dot = true;
            } else {
                break;
            }
            self.at += 1;
        }
        if any {
            Ok(F::lit(n, d))
        } else {
            Err(format!("no number at {}", self.at))
        }
    }
    fn atom(&mut self) -> R<F> {
        let c = self.peek().ok_or_else(|| "text ends early".to_string())?;
        match c {
            '(' => self.bracketed(),
            '|' => {
                self.at += 1;
                let x = self.expr()?;
                self.want('|')?;
                Ok(x.abs())
            }
            '⟨' => {
                self.at += 1;
                let x = self.expr()?;
                self.want(',')?;
                let y = self.expr()?;
                self.want('⟩')?;
                Ok(x * y)
            }
            '0'..='9' => self.number(),
            '½' => {
                self.at += 1;
                Ok(F::lit(1, 2))
            }
            '∞' => {
                self.at += 1;
                Ok(infinity())
            }
            '𝑖' => {
                // Imaginary: no real number is meant.
                self.at += 1;
                self.atom()?;
                Ok(F::nan())
            }
            'Σ' if self.word("Σ_i") => {
                let x = self.bracketed()?;
                if self.word("_i") {
                    Ok(x)
                } else {
                    Err("sum without index".into())
                }
            }
            '𝑒' => {
                self.at += 1;
                Ok(F::lit(1, 1).exp())
            }
            _ if c.is_alphabetic() => {
                let from = self.at;
                while self.peek().map_or(false, |c| c.is_alphanumeric()) {
                    self.at += 1;
                }
                let name: String = self.s[from..self.at].iter().collect();
                if self.peek() == Some('(') {
                    if let Some(f) = function::<F>(&name) {
                        return Ok(f(self.bracketed()?));
                    }
                }
                if let Some(x) = (self.vars)(&name) {
                    return Ok(x);
                }
                if name == "π" {
                    return Ok(F::from_f64(std::f64::consts::PI).unwrap());
                }
                Err(format!("unknown name {:?}", name))
            }
            _ => Err(format!("unexpected {:?} at {}", c, self.at)),
        }
    }
}

fn function<F: Fld>(name: &str) -> Option<fn(F) -> F> {
    Some(match name {
        "cos" => |x| x.cos(),
        "cosh" => |x| x.cosh(),
        "acos" => |x| x.acos(),
        "acosh" => |x| x.acosh(),
        "sin" => |x| x.sin(),
        "sinh" => |x| x.sinh(),
        "asin" => |x| x.asin(),
        "asinh" => |x| x.asinh(),
        "tan" => |x| x.tan(),
        "tanh" => |x| x.tanh(),
        "atan" => |x| x.atan(),
        "atanh" => |x| x.atanh(),
        "ln" => |x| x.ln(),
        "Γ" => |x| x.gamma(),
        "ψ" => |x| x.digamma(),
        "lnΓ" => |x| x.loggamma(),
        "erf" => |x| x.erf(),
        // Written out from the definitions, not with the library's own functions.
        "σ" => |x| F::lit(1, 1) / (F::lit(1, 1) + (-x).exp()),
        "δ" => |x| if x == F::lit(0, 1) { infinity() } else { F::lit(0, 1) },
        "sgn" => |x| {
            if x == F::lit(0, 1) {
                F::lit(0, 1)
            } else if x > F::lit(0, 1) {
                F::lit(1, 1)
            } else {
                F::lit(-1, 1)
            }
        },
        _ => return None,
    })
}

/// The value of a printed expression.
pub fn read<F: Fld>(text: &str, vars: &dyn Fn(&str) -> Option<F>) -> Result<F, String> {
    let mut r = Reader::new(text, vars);
    let x = r.expr()?;
    if r.at < r.s.len() {
        return Err(format!("trailing text at {}", r.at));
    }
    Ok(x)
}

/// Whether the text is a single operand, which needs no brackets anywhere.
pub fn is_atom<F: Fld>(text: &str, vars: &dyn Fn(&str) -> Option<F>) -> bool {
    let mut r = Reader::new(text, vars);
    matches!(r.atom(), Ok(_)) && r.at == r.s.len()
}
