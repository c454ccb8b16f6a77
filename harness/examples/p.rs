use std::io::Read;
fn main(){ let mut s=String::new(); std::io::stdin().read_to_string(&mut s).unwrap();
 let mut p=wat_parser::Parser::new(&s); let t=p.parse(); 
 println!("{:#?}", t); for e in p.errors(){println!("{}..{} {}",e.start,e.end,e.message);} println!("lossless {}", t.text().to_string()==s);}
